// Simulated GPU: memory, stream, thread scheduler and a C interface.
//
// Compiled without instrumentation.  The code under test is compiled with
// -fsanitize=thread, whose callbacks (__tsan_*) are defined here instead of in
// the sanitizer's library: every load and store of the code under test goes
// through access() below.
#include <sys/mman.h>

#include <deque>
#include <functional>
#include <memory>
#include <random>

#include "tensorflow/core/framework/op_kernel.h"

#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim

using namespace tensorflow;
using gpusim::Body;
using gpusim::Cfg;

// ---- state -------------------------------------------------------------------
namespace {
enum Kind { DEV = 0, PINNED = 1, HOST = 2, SHARED = 3, INPUT = 4, HOSTIN = 5 };
}
struct GpusimBuf {
  uintptr_t base;
  size_t size;
  int kind;
  int refs;
  bool alive;
  unsigned block;   // owner of shared memory
  std::string name;
};
struct gpusim_stream { int x; };
struct gpusim_event { size_t mark; };

namespace {
typedef unsigned long long u64;
const size_t ARENA = (size_t)768 << 20;
const size_t RED = 512;
uintptr_t arena = 0;
uint32_t* shadow = nullptr;       // buffer id + 1 per 8 bytes
size_t top = 0;
std::vector<std::unique_ptr<GpusimBuf>> bufs;
std::vector<uint32_t> dirty_pages;
uintptr_t image_lo = 0, image_hi = 0;

struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  unsigned below(unsigned n) { return (unsigned)((next() >> 11) % n); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
} rng, mem_rng;

struct Params {
  u64 seed = 0;
  int garbage = 0;        // 0 random, 1 zero, 2 0xff, 3 NaN, 4 large ints
  int policy = 0;         // see pick()
  double preempt = 0;
  int order = 0;          // 0 natural, 1 reversed, 2 shuffled blocks
  int window = 4;         // blocks resident at once
  int mps = 8, occupancy = 8;
  double lazy = 0.5;      // probability that the stream lags behind
  long long fail_alloc = -1;
  long long fail_call = -1; // the device call that fails
  long long now = 0;
  long long max_access = 0;
} P;

struct Stats {
  long long launches, threads, switches, barriers, reads, writes, atomics,
      copies, allocs, alloc_faults, blocks, lazy_ops, poisons, call_faults,
      events, events_freed;
} S;

// ---- fibers ------------------------------------------------------------------
extern "C" void gpusim_switch(void** from, void* to);
asm(R"(
.text
.globl gpusim_switch
.hidden gpusim_switch
.type gpusim_switch,@function
gpusim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size gpusim_switch,.-gpusim_switch
)");

struct Stack { char* lo; size_t size; };
std::vector<Stack> pool;
const size_t TSTACK = 64 << 10, HSTACK = 1 << 20;

Stack new_stack(size_t n) {
  char* p = (char*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char*)MAP_FAILED) abort();
  mprotect(p, 4096, PROT_NONE);
  return Stack{p + 4096, n};
}

struct Block;
struct Thread {
  void* sp = nullptr;
  Stack stack{nullptr, 0};
  Block* block = nullptr;
  unsigned idx = 0;
  int state = 0;              // 0 fresh, 1 ready, 2 at barrier, 3 done
  const void* site = nullptr;
};
struct Block {
  unsigned idx = 0;
  std::vector<Thread> threads;
  unsigned alive = 0, waiting = 0;
  char* dyn = nullptr;
  std::vector<std::pair<const void*, void*>> statics;
  std::vector<GpusimBuf*> shared;
};

void* sched_sp = nullptr;      // kernel scheduler
void* main_sp = nullptr;       // caller of gpusim_run
void* host_sp = nullptr;       // host code of the op
Stack host_stack{nullptr, 0};
bool in_host = false;
Thread* cur = nullptr;         // device thread running
long long budget = 0;          // accesses until the next preemption
long long accesses = 0;

struct Launch {
  Cfg cfg;
  std::string name;
  std::unique_ptr<Body> body;
};
Launch* running = nullptr;

enum Outcome { OK = 0, OPERROR = 1, VIOLATION = 2, EXITED = 3 };
int outcome = 0, exit_code = 0, err_code = 0;
std::string out_kind, out_msg;
int last_error = 0;
bool sticky = false;
bool active = false;
int quiet = 0;                 // inside the simulator itself
struct Quiet { Quiet() { quiet++; } ~Quiet() { quiet--; } };

std::deque<std::function<void()>> stream_q;
size_t stream_done = 0, stream_put = 0;
gpusim_stream the_stream;
cudaStream_t the_stream_ptr = &the_stream;
std::function<void()> host_fn;

[[noreturn]] void bail() {
  // leaves host and device code for good; their stacks are reset by the caller
  void* dummy;
  cur = nullptr;
  running = nullptr;
  in_host = false;
  gpusim_switch(&dummy, main_sp);
  abort();
}

[[noreturn]] void violate(const std::string& kind, const std::string& msg) {
  quiet++;
  outcome = VIOLATION;
  out_kind = kind;
  out_msg = msg;
  bail();
}

std::string where() {
  Quiet q;
  if (!cur) return running ? "launching " + running->name : "host code";
  char b[128];
  snprintf(b, sizeof b, " block %u thread %u", cur->block->idx, cur->idx);
  return "kernel " + running->name + b;
}

// ---- memory --------------------------------------------------------------------
void garbage(uintptr_t a, size_t n) {
  unsigned char* p = (unsigned char*)a;
  switch (P.garbage) {
    case 1: __builtin_memset(p, 0, n); return;
    case 2: __builtin_memset(p, 0xff, n); return;
    case 3: case 4: {
      unsigned v = P.garbage == 3 ? 0x7fc00000u : 0x3f7fffffu;
      size_t i = 0;
      for (; i + 4 <= n; i += 4) __builtin_memcpy(p + i, &v, 4);
      for (; i < n; ++i) p[i] = 0x7f;
      return;
    }
    default: {
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        u64 v = mem_rng.next();
        if (v & 1) v &= 0x0000003f0000003full;   // plausible small ints
        __builtin_memcpy(p + i, &v, 8);
      }
      for (; i < n; ++i) p[i] = (unsigned char)mem_rng.next();
    }
  }
}

GpusimBuf* make(int kind, size_t bytes, const std::string& name) {
  Quiet q;
  auto b = std::unique_ptr<GpusimBuf>(new GpusimBuf());
  b->kind = kind; b->size = bytes; b->refs = 1; b->alive = true;
  b->name = name; b->block = 0; b->base = 0;
  if (bytes) {
    size_t n = (bytes + 255) & ~(size_t)255;
    if (top + n + 2 * RED > ARENA) return nullptr;
    b->base = arena + top + RED;
    top += n + RED;
    uint32_t id = (uint32_t)bufs.size() + 1;
    size_t g = (b->base - arena) >> 3, e = (b->base + bytes - arena + 7) >> 3;
    for (; g < e; ++g) shadow[g] = id;
    garbage(b->base, bytes);
  }
  S.allocs++;
  bufs.push_back(std::move(b));
  return bufs.back().get();
}

void reset_memory() {
  // clear only what was used
  if (top) {
    __builtin_memset(shadow, 0, ((top + RED) >> 3) * 4);
    if (top > ((size_t)64 << 20)) {
      madvise((void*)arena, ARENA, MADV_DONTNEED);
      madvise(shadow, (ARENA >> 3) * 4, MADV_DONTNEED);
    }
  }
  top = 0;
  bufs.clear();
}

std::string describe(uintptr_t a) {
  Quiet q;
  char t[256];
  for (auto& b : bufs) {
    if (!b->size) continue;
    if (a + RED >= b->base && a < b->base + b->size + RED) {
      if (a < b->base)
        snprintf(t, sizeof t, "%ld bytes before %s (%zu bytes)",
                 (long)(b->base - a), b->name.c_str(), b->size);
      else if (a >= b->base + b->size)
        snprintf(t, sizeof t, "%ld bytes after the end of %s (%zu bytes)",
                 (long)(a - b->base - b->size), b->name.c_str(), b->size);
      else
        snprintf(t, sizeof t, "offset %ld of %s (%zu bytes)",
                 (long)(a - b->base), b->name.c_str(), b->size);
      return t;
    }
  }
  return "unallocated memory";
}

const char* rw(bool w) { return w ? "writes" : "reads"; }

// checks an access; dev: by device code or a device side copy
void check(uintptr_t a, size_t n, bool w, bool dev, const char* how) {
  uint32_t id = shadow[(a - arena) >> 3];
  GpusimBuf* b = id ? bufs[id - 1].get() : nullptr;
  if (!b || a < b->base || a + n > b->base + b->size)
    violate("out-of-bounds", where() + how + " " + rw(w) + " " +
            describe(a < arena ? arena : a));
  if (!b->alive)
    violate("use-after-free", where() + how + " " + rw(w) + " freed " +
            describe(a));
  if (dev) {
    if (w && b->kind == INPUT)
      violate("input-modified", where() + how + " writes " + describe(a));
    if (b->kind == HOST || b->kind == HOSTIN)
      violate("host-memory", where() + how + " " + rw(w) + " host memory, " +
              describe(a));
    if (b->kind == SHARED && (!cur || b->block != cur->block->idx))
      violate("shared-memory", where() + how + " " + rw(w) +
              " shared memory of another block");
  } else {
    if (b->kind == DEV || b->kind == INPUT || b->kind == SHARED)
      violate("device-memory", where() + how + " " + rw(w) +
              " device memory directly, " + describe(a));
    if (w && b->kind == HOSTIN)
      violate("input-modified", where() + how + " writes " + describe(a));
  }
}

void yield_thread() {
  S.switches++;
  Thread* me = cur;
  gpusim_switch(&me->sp, sched_sp);
}

inline void preempt_point() {
  if (--budget < 0) yield_thread();
}

void slow_access(uintptr_t a, size_t n, bool w) {
  // not in the arena: the stack of the thread, the arguments or the image
  if (!cur) {
    if (a < 4096) violate("null-pointer", where() + " " + rw(w) + " address " +
                          std::to_string(a));
    return;
  }
  uintptr_t lo = (uintptr_t)cur->stack.lo;
  if (a >= lo && a < lo + cur->stack.size) return;
  uintptr_t c = (uintptr_t)running->body.get();
  if (a >= c && a < c + running->body->bytes) return;
  if (a >= image_lo && a < image_hi) {
    if (w) violate("global-write", where() + " writes a host variable");
    return;
  }
  if (a < 4096)
    violate("null-pointer", where() + " " + rw(w) + " address " +
            std::to_string(a));
  violate("wild-access", where() + " " + rw(w) +
          " memory that is not device memory");
}

inline void access(void* p, size_t n, bool w) {
  if (!active || quiet) return;
  uintptr_t a = (uintptr_t)p;
  if (a - arena >= ARENA) {
    if (cur && a - (uintptr_t)cur->stack.lo < cur->stack.size) return;
    slow_access(a, n, w);
    return;
  }
  if (w) S.writes++; else S.reads++;
  if (cur) {
    if (++accesses > P.max_access)
      violate("no-progress", where() + ": too many memory accesses");
    preempt_point();
    check(a, n, w, true, "");
  } else {
    check(a, n, w, false, "");
  }
}

void check_range(const void* p, size_t n, bool w, bool dev, const char* how) {
  if (!n) return;
  uintptr_t a = (uintptr_t)p;
  if (a < 4096) violate("null-pointer", where() + how + " uses a null pointer");
  if (a - arena < ARENA) {
    check(a, n, w, dev, how);
  } else if (dev) {
    violate("wild-access", where() + how + " uses memory that is not device "
            "memory");
  }
}

// ---- stream ----------------------------------------------------------------------
void drain(size_t upto) {
  while (stream_done < upto) {
    auto f = std::move(stream_q.front());
    stream_q.pop_front();
    stream_done++;
    f();
  }
}
// Does this call of the runtime fail?  A device that reports an error does
// nothing that was not finished before.
bool lost = false;
bool device_fault(int code) {
  if (P.fail_call < 0 || P.fail_call-- != 0) return false;
  S.call_faults++;
  last_error = code;
  sticky = code == cudaErrorLaunchFailure;
  lost = true;
  while (!stream_q.empty()) { stream_q.pop_front(); stream_done++; }
  return true;
}
void put(std::function<void()> f) {
  if (lost) return;
  stream_q.push_back(std::move(f));
  stream_put++;
}
void pump() {
  // the device catches up with a random part of what was queued
  if (stream_done == stream_put) return;
  if (rng.unit() < P.lazy) { S.lazy_ops++; return; }
  size_t n = stream_put - stream_done;
  drain(stream_done + 1 + rng.below((unsigned)n));
}
cudaError_t wait_for(size_t mark) {
  if (device_fault(cudaErrorLaunchFailure)) return cudaErrorLaunchFailure;
  if (!lost) drain(mark);
  return (cudaError_t)last_error;
}
bool is_host_kind(const void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a - arena >= ARENA) return true;
  uint32_t id = shadow[(a - arena) >> 3];
  if (!id) return false;
  int k = bufs[id - 1]->kind;
  return k == PINNED || k == HOST || k == HOSTIN;
}

// ---- kernels -----------------------------------------------------------------------
void thread_entry() {
  running->body->run();
  Thread* me = cur;
  me->state = 3;
  gpusim_switch(&me->sp, sched_sp);
  abort();
}

void start(Thread& t) {
  if (pool.empty()) pool.push_back(new_stack(TSTACK));
  t.stack = pool.back();
  pool.pop_back();
  // frame: mxcsr+fpucw, 6 registers, return address
  uintptr_t sp = ((uintptr_t)t.stack.lo + t.stack.size) & ~(uintptr_t)15;
  sp -= 8;                       // as after a call
  *(uintptr_t*)sp = 0;
  sp -= 8; *(void**)sp = (void*)thread_entry;
  for (int i = 0; i < 6; ++i) { sp -= 8; *(uintptr_t*)sp = 0; }
  sp -= 8;
  unsigned mx; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  *(unsigned*)sp = mx;
  *(unsigned*)(sp + 4) = cw;
  t.sp = (void*)sp;
  t.state = 1;
}

void release_barrier(Block& b) {
  const void* site = nullptr;
  bool first = true;
  for (auto& t : b.threads) {
    if (t.state != 2) continue;
    if (first) { site = t.site; first = false; }
    else if (t.site != site) {
      cur = &t;
      violate("barrier-divergence", where() +
              " waits at another barrier than the rest of its block");
    }
  }
  for (auto& t : b.threads) if (t.state == 2) t.state = 1;
  b.waiting = 0;
  S.barriers++;
}

std::vector<std::unique_ptr<Block>> live;

void finish_block(Block& b) {
  for (auto* s : b.shared) s->alive = false;
}

void run_kernel(Launch& L) {
  running = &L;
  S.launches++;
  unsigned nb = L.cfg.grid.x * L.cfg.grid.y * L.cfg.grid.z;
  unsigned nt = L.cfg.block.x * L.cfg.block.y * L.cfg.block.z;
  S.threads += (long long)nb * nt;
  S.blocks += nb;
  std::vector<unsigned> order(nb);
  for (unsigned i = 0; i < nb; ++i) order[i] = P.order == 1 ? nb - 1 - i : i;
  if (P.order == 2)
    for (unsigned i = nb; i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
  size_t next = 0;
  live.clear();
  int policy = P.policy;
  unsigned rr = 0;
  for (;;) {
    while ((int)live.size() < P.window && next < nb) {
      std::unique_ptr<Block> b(new Block());
      b->idx = order[next++];
      b->threads.resize(nt);
      b->alive = nt;
      if (L.cfg.shared) {
        GpusimBuf* s = make(SHARED, L.cfg.shared, "dynamic shared memory");
        if (!s) violate("harness", "arena exhausted");
        s->block = b->idx;
        b->dyn = (char*)s->base;
        b->shared.push_back(s);
      }
      for (unsigned i = 0; i < nt; ++i) {
        b->threads[i].block = b.get();
        b->threads[i].idx = i;
      }
      live.push_back(std::move(b));
    }
    if (live.empty()) break;
    // choose a block, then a thread in it
    unsigned bi = 0;
    if (policy >= 2) bi = rng.below((unsigned)live.size());
    Block& b = *live[bi];
    Thread* t = nullptr;
    unsigned n = (unsigned)b.threads.size();
    auto ok = [](Thread& x) { return x.state == 0 || x.state == 1; };
    if (policy == 0) {                       // lowest first
      for (unsigned i = 0; i < n && !t; ++i) if (ok(b.threads[i])) t = &b.threads[i];
    } else if (policy == 1) {                // highest first
      for (unsigned i = n; i-- > 0 && !t;) if (ok(b.threads[i])) t = &b.threads[i];
    } else if (policy == 3 && ok(b.threads[0])) {   // leader runs ahead
      t = &b.threads[0];
    } else if (policy == 4) {                // leader lags behind
      unsigned s = rng.below(n);
      for (unsigned i = 0; i < n && !t; ++i) {
        Thread& x = b.threads[(s + i) % n];
        if (x.idx != 0 && ok(x)) t = &x;
      }
      if (!t) t = &b.threads[0];
    } else if (policy == 5) {                // round robin (lockstep)
      for (unsigned i = 0; i < n && !t; ++i) {
        Thread& x = b.threads[(rr + i) % n];
        if (ok(x)) { t = &x; rr = (rr + i + 1) % n; }
      }
    } else {                                 // random
      unsigned s = rng.below(n);
      for (unsigned i = 0; i < n && !t; ++i)
        if (ok(b.threads[(s + i) % n])) t = &b.threads[(s + i) % n];
    }
    if (!t || !ok(*t)) violate("harness", "no runnable thread");
    if (t->state == 0) start(*t);
    double p = policy == 5 ? 1.0 : P.preempt;
    if (p <= 0) budget = (long long)1 << 60;
    else if (p >= 1) budget = 1;
    else budget = 1 + (long long)(log(1 - rng.unit()) / log(1 - p));
    cur = t;
    gpusim_switch(&sched_sp, t->sp);
    cur = nullptr;
    if (t->state == 3) {
      pool.push_back(t->stack);
      t->stack.lo = nullptr;
      b.alive--;
      if (b.alive == 0) {
        finish_block(b);
        live.erase(live.begin() + bi);
        continue;
      }
    }
    if (b.waiting && b.waiting == b.alive) release_barrier(b);
  }
  running = nullptr;
}

void release_stacks() {
  for (auto& b : live)
    for (auto& t : b->threads)
      if (t.stack.lo) { pool.push_back(t.stack); t.stack.lo = nullptr; }
  live.clear();
}

void host_entry() {
  host_fn();
  in_host = false;
  void* d;
  gpusim_switch(&d, main_sp);
  abort();
}

void run_on_host_stack(std::function<void()> f) {
  if (!host_stack.lo) host_stack = new_stack(HSTACK);
  host_fn = std::move(f);
  uintptr_t sp = ((uintptr_t)host_stack.lo + host_stack.size) & ~(uintptr_t)15;
  sp -= 8; *(uintptr_t*)sp = 0;
  sp -= 8; *(void**)sp = (void*)host_entry;
  for (int i = 0; i < 6; ++i) { sp -= 8; *(uintptr_t*)sp = 0; }
  sp -= 8;
  unsigned mx; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  *(unsigned*)sp = mx; *(unsigned*)(sp + 4) = cw;
  in_host = true;
  gpusim_switch(&main_sp, (void*)sp);
}
}  // namespace

// ---- interface of the code under test ---------------------------------------------
namespace tensorflow {
std::map<std::string, OpDefn>& op_registry() {
  static std::map<std::string, OpDefn> m;
  return m;
}
std::map<std::string, KernelDefn>& kernel_registry() {
  static std::map<std::string, KernelDefn> m;
  return m;
}
}  // namespace tensorflow

namespace gpusim {
void enqueue(const Cfg& c, const char* name, std::unique_ptr<Body> body) {
  pump();
  unsigned long long nb = (unsigned long long)c.grid.x * c.grid.y * c.grid.z;
  unsigned long long nt = (unsigned long long)c.block.x * c.block.y * c.block.z;
  if (nb == 0 || nt == 0 || nt > 1024 || c.grid.x > 0x7fffffffu ||
      c.grid.y > 65535 || c.grid.z > 65535) {
    last_error = cudaErrorInvalidConfiguration;
    return;
  }
  if (c.shared > 49152) { last_error = cudaErrorInvalidValue; return; }
  if (device_fault(cudaErrorLaunchOutOfResources)) return;
  auto L = std::make_shared<Launch>(Launch{c, name, std::move(body)});
  put([L]() { run_kernel(*L); });
}
}  // namespace gpusim

extern "C" {
GpusimBuf* gpusim_new(int kind, size_t bytes, const char* name) {
  GpusimBuf* b = make(kind, bytes, name);
  if (!b) violate("harness", "arena exhausted");
  return b;
}
void gpusim_ref(GpusimBuf* b) { b->refs++; }
void gpusim_unref(GpusimBuf* b) {
  if (!active) return;
  if (--b->refs) return;
  if (b->kind == PINNED || b->kind == HOST) {
    // other host code may use this memory at once
    if (b->size && b->alive) { garbage(b->base, b->size); S.poisons++; }
    b->kind = PINNED;   // contents stay readable for pending copies
  } else {
    put([b]() { b->alive = false; });
  }
}
void* gpusim_data(GpusimBuf* b) { return (void*)b->base; }
void gpusim_violation(const char* kind, const char* msg) {
  if (!active) { fprintf(stderr, "gpusim: %s %s\n", kind, msg); abort(); }
  violate(kind, where() + ": " + msg);
}
int gpusim_alloc_fails(size_t bytes) {
  pump();
  if (P.fail_alloc >= 0 && P.fail_alloc-- == 0) { S.alloc_faults++; return 1; }
  return top + bytes + 4 * RED > ARENA;
}
const cudaStream_t& gpusim_stream_ref() { return the_stream_ptr; }

cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; }
cudaError_t cudaSetDevice(int) { return cudaSuccess; }
cudaError_t gpusim_device_props(cudaDeviceProp* p) {
  __builtin_memset(p, 0, sizeof *p);
  p->warpSize = 32;
  p->multiProcessorCount = P.mps;
  p->maxThreadsPerBlock = 1024;
  p->maxThreadsPerMultiProcessor = 2048;
  p->regsPerBlock = 65536;
  p->regsPerMultiprocessor = 65536;
  p->sharedMemPerBlock = 49152;
  p->sharedMemPerMultiprocessor = 98304;
  p->major = 7;
  return cudaSuccess;
}
cudaError_t gpusim_occupancy(int* n, const void*, int block, size_t shared) {
  int lim = block > 0 ? 2048 / block : 0;
  if (lim > 32) lim = 32;
  if (shared && (int)(98304 / shared) < lim) lim = (int)(98304 / shared);
  *n = P.occupancy < lim ? P.occupancy : lim;
  return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t) {
  pump();
  S.copies++;
  if (device_fault(cudaErrorInvalidValue)) return cudaErrorInvalidValue;
  put([=]() {
    check_range(d, n, true, true, "memset");
    if (n) __builtin_memset(d, v, n);
  });
  return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n) {
  cudaMemsetAsync(d, v, n, nullptr);
  return wait_for(stream_put);
}
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n,
                            cudaMemcpyKind k, cudaStream_t) {
  pump();
  S.copies++;
  if (device_fault(cudaErrorInvalidValue)) return cudaErrorInvalidValue;
  if (!n) return cudaSuccess;
  bool src_dev = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice;
  bool dst_dev = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice;
  if ((uintptr_t)s < 4096 || (uintptr_t)d < 4096)
    violate("null-pointer", "copy uses a null pointer");
  if (k != cudaMemcpyDefault) {
    if (src_dev && is_host_kind(s)) violate("copy-kind", "copy from host memory declared as device memory");
    if (dst_dev && is_host_kind(d)) violate("copy-kind", "copy to host memory declared as device memory");
    if (!src_dev && !is_host_kind(s)) violate("copy-kind", "copy from device memory declared as host memory");
    if (!dst_dev && !is_host_kind(d)) violate("copy-kind", "copy to device memory declared as host memory");
  }
  bool pageable_src = (uintptr_t)s - arena >= ARENA;
  bool pageable_dst = (uintptr_t)d - arena >= ARENA;
  if (pageable_src) {
    // staged before the call returns
    auto copy = std::make_shared<std::string>((const char*)s, n);
    put([=]() {
      check_range(d, n, true, dst_dev, "copy");
      __builtin_memcpy(d, copy->data(), n);
    });
  } else {
    put([=]() {
      check_range(s, n, false, src_dev, "copy");
      check_range(d, n, true, dst_dev, "copy");
      __builtin_memmove(d, s, n);
    });
  }
  if (pageable_dst) drain(stream_put);
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) {
  cudaMemcpyAsync(d, s, n, k, nullptr);
  return wait_for(stream_put);
}
cudaError_t cudaPeekAtLastError() { return (cudaError_t)last_error; }
cudaError_t cudaGetLastError() {
  int e = last_error;
  if (!sticky) last_error = 0;
  return (cudaError_t)e;
}
const char* cudaGetErrorString(cudaError_t e) {
  switch (e) {
    case cudaSuccess: return "no error";
    case cudaErrorInvalidConfiguration: return "invalid configuration argument";
    case cudaErrorLaunchOutOfResources: return "too many resources requested";
    case cudaErrorLaunchFailure: return "unspecified launch failure";
    default: return "error";
  }
}
cudaError_t cudaEventCreate(cudaEvent_t* e) {
  *e = (cudaEvent_t)malloc(sizeof(gpusim_event));
  (*e)->mark = 0;
  S.events++;
  return cudaSuccess;
}
cudaError_t cudaEventDestroy(cudaEvent_t e) {
  S.events_freed++;
  free(e);
  return cudaSuccess;
}
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t) {
  pump();
  e->mark = stream_put;
  return cudaSuccess;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) { return wait_for(e->mark); }
cudaError_t cudaEventQuery(cudaEvent_t e) {
  pump();
  return stream_done >= e->mark ? cudaSuccess : cudaErrorNotReady;
}
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned int) { return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float* f, cudaEvent_t, cudaEvent_t) { *f = 0; return cudaSuccess; }
cudaError_t cudaStreamSynchronize(cudaStream_t) { return wait_for(stream_put); }
cudaError_t cudaStreamQuery(cudaStream_t) {
  pump();
  return stream_done == stream_put ? cudaSuccess : cudaErrorNotReady;
}
cudaError_t cudaDeviceSynchronize() { return wait_for(stream_put); }

static uint3 unroll(unsigned i, const dim3& d) {
  return uint3{i % d.x, (i / d.x) % d.y, i / (d.x * d.y)};
}
uint3 gpusim_thread_idx() { return unroll(cur->idx, running->cfg.block); }
uint3 gpusim_block_idx() { return unroll(cur->block->idx, running->cfg.grid); }
uint3 gpusim_block_dim() { return uint3{running->cfg.block.x, running->cfg.block.y, running->cfg.block.z}; }
uint3 gpusim_grid_dim() { return uint3{running->cfg.grid.x, running->cfg.grid.y, running->cfg.grid.z}; }
void gpusim_sync(const void* site) {
  Thread* me = cur;
  me->state = 2;
  me->site = site;
  me->block->waiting++;
  gpusim_switch(&me->sp, sched_sp);
}
void* gpusim_static_shared(const void* site, size_t n) {
  Block* b = cur->block;
  for (auto& s : b->statics) if (s.first == site) return s.second;
  GpusimBuf* s = make(SHARED, n, "shared memory");
  if (!s) violate("harness", "arena exhausted");
  s->block = b->idx;
  b->shared.push_back(s);
  b->statics.push_back({site, (void*)s->base});
  return (void*)s->base;
}
void* gpusim_dyn_shared() {
  if (!cur->block->dyn) violate("out-of-bounds", where() + " uses dynamic shared memory, none was requested");
  return cur->block->dyn;
}
void gpusim_atomic(void* p, size_t n) {
  S.atomics++;
  if (!cur) { violate("harness", "atomic outside of a kernel"); }
  if ((uintptr_t)p % n) violate("misaligned", where() + " atomic on a misaligned address");
  access(p, n, true);
}

// ---- replaced C library calls --------------------------------------------------------
[[noreturn]] void __wrap_exit(int code) {
  if (!active) _Exit(code);
  outcome = EXITED;
  exit_code = code;
  bail();
}
[[noreturn]] void __wrap_abort() {
  if (!active) _Exit(134);
  outcome = EXITED;
  exit_code = 134;
  bail();
}
time_t __wrap_time(time_t* t) {
  if (t) *t = (time_t)P.now;
  return (time_t)P.now;
}
int __wrap_fprintf(FILE*, const char*, ...) { return 0; }
int __wrap_printf(const char*, ...) { return 0; }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (active && !quiet && n) {
    access((void*)s, 1, false);
    if (n > 1) access((char*)s + n - 1, 1, false);
    access(d, 1, true);
    if (n > 1) access((char*)d + n - 1, 1, true);
  }
  return __builtin_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (active && !quiet && n) {
    access(d, 1, true);
    if (n > 1) access((char*)d + n - 1, 1, true);
  }
  unsigned char* p = (unsigned char*)d;
  for (size_t i = 0; i < n; ++i) ((volatile unsigned char*)p)[i] = (unsigned char)v;
  return d;
}

// ---- instrumentation callbacks --------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(N)                                                    \
  void __tsan_read##N(void* a) { access(a, N, false); }          \
  void __tsan_write##N(void* a) { access(a, N, true); }          \
  void __tsan_unaligned_read##N(void* a) { access(a, N, false); }\
  void __tsan_unaligned_write##N(void* a) { access(a, N, true); }\
  void __tsan_volatile_read##N(void* a) { access(a, N, false); } \
  void __tsan_volatile_write##N(void* a) { access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) {
  if (!n) return;
  access(a, 1, false);
  if (n > 1) access((char*)a + n - 1, 1, false);
}
void __tsan_write_range(void* a, unsigned long n) {
  if (!n) return;
  access(a, 1, true);
  if (n > 1) access((char*)a + n - 1, 1, true);
}

// ---- interface of the harness -------------------------------------------------------------
static std::unique_ptr<OpKernelContext> ctx;
static std::string text;
static std::vector<std::string> shape_text;

static int dtype_of(const std::string& s) {
  size_t k = s.find(':');
  std::string t = s.substr(k + 1);
  while (!t.empty() && t[0] == ' ') t.erase(0, 1);
  if (t == "float32" || t == "float") return DT_FLOAT;
  if (t == "float64" || t == "double") return DT_DOUBLE;
  if (t == "int32") return DT_INT32;
  if (t == "int64") return DT_INT64;
  if (t == "bool") return DT_BOOL;
  return 0;
}

void gpusim_init(u64 lo, u64 hi) {
  image_lo = lo;
  image_hi = hi;
  if (arena) return;
  arena = (uintptr_t)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (uint32_t*)mmap(nullptr, (ARENA >> 3) * 4, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == (uintptr_t)MAP_FAILED || shadow == MAP_FAILED) _Exit(3);
}

// name;inputs,...;outputs,...;attrs,...;host,...
const char* gpusim_ops() {
  text.clear();
  for (auto& kv : op_registry()) {
    auto& d = kv.second;
    text += d.name + ";";
    for (auto& s : d.inputs) text += s + ",";
    text += ";";
    for (auto& s : d.outputs) text += s + ",";
    text += ";";
    for (auto& s : d.attrs) text += s + ",";
    text += ";";
    auto it = kernel_registry().find(d.name);
    if (it == kernel_registry().end()) text += "!";
    else for (auto& s : it->second.host) text += s + ",";
    text += "\n";
  }
  return text.c_str();
}

struct CInput { int ndim; long long dims[8]; const void* data; };

int gpusim_run(const char* op, int nin, const CInput* in, int nattr,
               const char** anames, const long long* avals, u64 seed,
               int gar, int policy, double preempt, int order, int window,
               int mps, int occupancy, double lazy, long long fail_alloc,
               long long fail_call, long long now, long long max_access) {
  P.seed = seed; P.garbage = gar; P.policy = policy; P.preempt = preempt;
  P.order = order; P.window = window; P.mps = mps; P.occupancy = occupancy;
  P.lazy = lazy; P.fail_alloc = fail_alloc; P.fail_call = fail_call; P.now = now;
  P.max_access = max_access;
  rng.s = seed; mem_rng.s = seed ^ 0x5555;
  outcome = OK; exit_code = 0; err_code = 0;
  out_kind.clear(); out_msg.clear();
  // a device that is lost is replaced, other errors stay until they are read
  if (sticky) last_error = 0;
  sticky = lost = false;
  accesses = 0;
  __builtin_memset(&S, 0, sizeof S);
  stream_q.clear(); stream_done = stream_put = 0;
  ctx.reset();
  reset_memory();
  auto d = op_registry().find(op);
  auto k = kernel_registry().find(op);
  if (d == op_registry().end() || k == kernel_registry().end()) return -1;
  OpDefn& def = d->second;
  if ((int)def.inputs.size() != nin) return -2;
  AttrSet attrs;
  for (int i = 0; i < nattr; ++i) attrs.ints[anames[i]] = avals[i];
  std::vector<std::string> host = k->second.host;
  auto on_host = [&](const std::string& s) {
    std::string n = s.substr(0, s.find(':'));
    for (auto& h : host) if (h == n) return true;
    return false;
  };
  ctx.reset(new OpKernelContext());
  for (int i = 0; i < nin; ++i) {
    std::vector<int64> dims(in[i].dims, in[i].dims + in[i].ndim);
    DataType t = (DataType)dtype_of(def.inputs[i]);
    TensorShape s(dims);
    size_t bytes = (size_t)s.num_elements() * DataTypeSize(t);
    GpusimBuf* b = make(on_host(def.inputs[i]) ? HOSTIN : INPUT, bytes,
                        "input " + def.inputs[i]);
    if (!b) return -3;
    if (bytes) __builtin_memcpy((void*)b->base, in[i].data, bytes);
    ctx->inputs.emplace_back(t, s, b);
  }
  for (auto& o : def.outputs) {
    ctx->out_types.push_back((DataType)dtype_of(o));
    ctx->out_host.push_back(on_host(o));
    ctx->outputs.emplace_back();
  }
  active = true;
  quiet = 0;
  std::unique_ptr<OpKernel> kern;
  OpKernelContext* c = ctx.get();
  OpKernel** raw = new OpKernel*(nullptr);
  Status* made = new Status();
  run_on_host_stack([&attrs, raw, made, c, k]() {
    {
      OpKernelConstruction con(attrs);
      *raw = k->second.make(&con);
      *made = con.status;
    }
    if (!made->ok()) return;
    (*raw)->Compute(c);
    drain(stream_put);
  });
  active = false;
  release_stacks();
  stream_q.clear();
  if (outcome == OK) {
    Status st = made->ok() ? c->status_ : *made;
    if (!st.ok()) {
      outcome = OPERROR;
      err_code = st.code();
      out_msg = st.error_message();
    } else if (last_error) {
      outcome = VIOLATION;
      out_kind = "device-error";
      out_msg = std::string("the op succeeds with a pending device error: ") +
                cudaGetErrorString((cudaError_t)last_error);
    } else {
      for (size_t i = 0; i < ctx->outputs.size(); ++i)
        if (!ctx->outputs[i]) {
          outcome = VIOLATION;
          out_kind = "missing-output";
          out_msg = "output " + std::to_string(i) + " was not allocated";
        }
    }
  }
  if (outcome == OK || outcome == OPERROR) { delete *raw; }
  delete raw;
  delete made;
  return outcome;
}

void gpusim_reset() { last_error = 0; sticky = false; }
const char* gpusim_kind() { return out_kind.c_str(); }
const char* gpusim_msg() { return out_msg.c_str(); }
int gpusim_code() { return outcome == EXITED ? exit_code : err_code; }
int gpusim_num_outputs() { return (int)ctx->outputs.size(); }
int gpusim_output(int i, int* dtype, long long* dims, void** data) {
  auto& t = ctx->outputs[i];
  if (!t) return -1;
  *dtype = t->dtype();
  auto& r = t->shape().raw();
  for (size_t j = 0; j < r.size() && j < 8; ++j) dims[j] = r[j];
  *data = (void*)(t->buf() ? t->buf()->base : 0);
  return (int)r.size();
}
void gpusim_stats(long long* out) { __builtin_memcpy(out, &S, sizeof S); }
int gpusim_nstats() { return (int)(sizeof(S) / sizeof(long long)); }
const char* gpusim_stat_names() {
  return "launches threads switches barriers reads writes atomics copies allocs "
         "alloc_faults blocks lazy_ops poisons call_faults events events_freed";
}

// shape function with dimensions (-1 unknown, ndim -1 unknown rank); writes
// the inferred shapes as text "d,d;d;?"
int gpusim_shape(const char* op, int nin, const CInput* in, int nattr,
                 const char** anames, const long long* avals) {
  auto d = op_registry().find(op);
  if (d == op_registry().end() || !d->second.shape_fn) return -1;
  active = true;
  quiet = 0;
  outcome = OK;
  out_kind.clear(); out_msg.clear();
  std::string* res = new std::string();
  run_on_host_stack([=]() {
    shape_inference::InferenceContext ic;
    for (int i = 0; i < nattr; ++i) ic.attrs.ints[anames[i]] = avals[i];
    for (int i = 0; i < nin; ++i) {
      shape_inference::ShapeHandle h;
      h.known = in[i].ndim >= 0;
      for (int j = 0; j < in[i].ndim; ++j) h.d.push_back(in[i].dims[j]);
      ic.in.push_back(h);
    }
    ic.out.resize(d->second.outputs.size());
    Status s = d->second.shape_fn(&ic);
    if (!s.ok()) { outcome = OPERROR; out_msg = s.error_message(); return; }
    for (auto& o : ic.out) {
      if (!o.known) *res += "?";
      for (size_t j = 0; j < o.d.size(); ++j)
        *res += (j ? "," : "") + std::to_string(o.d[j]);
      *res += ";";
    }
  });
  active = false;
  text = *res;
  delete res;
  return outcome;
}
const char* gpusim_text() { return text.c_str(); }
}
