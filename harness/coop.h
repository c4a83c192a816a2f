// Cooperative scheduler: at most one managed thread runs; locks, condition variables and "use of a model" events of managed threads go through it.
// Everything here is invisible to the race detector, except the happens-before edges of the locks, which are announced explicitly.
#ifndef SCHED_H
#define SCHED_H
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdint.h>
#include <stdlib.h>
#define NOTSAN __attribute__((no_sanitize("thread"))) __attribute__((noinline))
#ifdef __SANITIZE_THREAD__
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#define HB_ACQ(x) __tsan_acquire(x)
#define HB_REL(x) __tsan_release(x)
#else
#define HB_ACQ(x)
#define HB_REL(x)
#endif
namespace sched {
enum { MAXT = 16, MAXL = 4096, MAXEV = 20000, BUF = 4 << 20 };
enum St { FREE, RUN, WLOCK, WCOND, DONE };
struct Thr { volatile int go; int st; void* on; void* mut; int timed, wr; };
struct Lk { void* a; int owner, readers; };
static Thr* th;   // a new array for each run: threads left behind by a deadlock wait on the old one for ever
static Lk lk[MAXL];
static int nlk, nth, cur, dead;
static volatile int fin;
static uint64_t rs;
static int stick;
static const int* plan; static int nplan, iplan;
static char buf[BUF]; static long nbuf; static int evover;
static __thread int me = -1;
NOTSAN static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 11; }
NOTSAN static void fwait(volatile int* p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
NOTSAN static void fwake(volatile int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0); }
NOTSAN static void putc_(char c) { if (nbuf < BUF - 4) buf[nbuf++] = c; else evover = 1; }
NOTSAN static void puts_(const char* s) { for (; *s; ++s) putc_(*s); }
NOTSAN static void puti(long n) { char b[24]; int k = 0; if (n < 0) { putc_('-'); n = -n; } do b[k++] = '0' + n % 10; while (n /= 10); while (k) putc_(b[--k]); }
NOTSAN static void ev(const char* json) { if (nbuf) putc_(','); puts_(json); }
NOTSAN static void ev_simple(const char* e) { if (nbuf) putc_(','); puts_("{\"e\":\""); puts_(e); puts_("\",\"t\":"); puti(me); putc_('}'); }
NOTSAN static Lk* lock_of(void* a) { for (int i = 0; i < nlk; ++i) if (lk[i].a == a) return lk + i; if (nlk >= MAXL) _exit(97); lk[nlk].a = a; lk[nlk].owner = -1; lk[nlk].readers = 0; return lk + nlk++; }
NOTSAN static bool runnable(int i)
{
  Thr& t = th[i];
  if (t.st == RUN) return true;
  if (t.st == WLOCK) { Lk* l = lock_of(t.on); return l->owner < 0 && (!t.wr || !l->readers); }
  if (t.st == WCOND) return t.timed && lock_of(t.mut)->owner < 0;
  return false;
}
NOTSAN static void pass()   // choose who runs next; returns when this thread may go on
{
  int c[MAXT], n = 0, pick = -1;
  for (int i = 0; i < nth; ++i) if (runnable(i)) c[n++] = i;
  if (!n) {
    bool all = true;
    for (int i = 0; i < nth; ++i) if (th[i].st != DONE) all = false;
    if (!all) { dead = 1; if (nbuf) putc_(','); puts_("{\"e\":\"deadlock\",\"t\":"); puti(me); putc_('}'); }
    fwake(&fin);
    if (me >= 0 && th[me].st != DONE) for (;;) pause();
    return;
  }
  while (iplan < nplan && pick < 0) { int w = plan[iplan++]; for (int i = 0; i < n; ++i) if (c[i] == w % nth) pick = c[i]; }
  if (pick < 0 && me >= 0 && runnable(me) && (int)(rnd() % 100) < stick) pick = me;
  if (pick < 0) pick = c[rnd() % n];
  if (pick == me) return;
  cur = pick;
  fwake(&th[pick].go);
  if (me >= 0 && th[me].st != DONE) fwait(&th[me].go);
}
NOTSAN static void yield() { if (me >= 0) pass(); }
NOTSAN static void lock(void* m, bool wr = true)
{
  th[me].st = WLOCK; th[me].on = m; th[me].wr = wr;
  pass();
  Lk* l = lock_of(m);
  if (wr) l->owner = me; else ++l->readers;
  th[me].st = RUN;
  HB_ACQ(m);
}
NOTSAN static void unlock(void* m, bool yielding = true)
{
  Lk* l = lock_of(m);
  if (l->readers > 0) --l->readers;
  else { if (l->owner != me) ev_simple("badunlock"); l->owner = -1; }
  HB_REL(m);
  if (yielding) pass();
}
NOTSAN static void begin(int n, uint64_t seed, int stick_, const int* plan_, int nplan_)
{
  th = (Thr*)calloc(MAXT, sizeof(Thr)); nth = n; nlk = 0; dead = 0; fin = 0; rs = seed * 2654435761u + 88172645463325252ull; stick = stick_; plan = plan_; nplan = nplan_; iplan = 0; nbuf = 0; cur = -1;
  for (int i = 0; i < n; ++i) { th[i].go = 0; th[i].st = RUN; }
}
NOTSAN static void enter(int i) { me = i; fwait(&th[i].go); }
NOTSAN static void leave() { th[me].st = DONE; pass(); me = -1; }
NOTSAN static bool go() { pass(); fwait(&fin); return !dead; }   // called by the main thread after the threads were created; false = deadlock
template <class F> NOTSAN static F real(const char* n) { static F f = 0; if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
}
extern "C" {
NOTSAN int pthread_mutex_lock(pthread_mutex_t* m) { if (sched::me < 0) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); } sched::lock(m); return 0; }
NOTSAN int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (sched::me < 0) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f(m); }
  sched::pass();
  if (sched::lock_of(m)->owner >= 0) return EBUSY;
  sched::lock_of(m)->owner = sched::me; HB_ACQ(m); return 0;
}
NOTSAN int pthread_mutex_unlock(pthread_mutex_t* m) { if (sched::me < 0) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); } sched::unlock(m); return 0; }
NOTSAN int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  static auto f = (int (*)(pthread_mutex_t*, const pthread_mutexattr_t*))dlsym(RTLD_NEXT, "pthread_mutex_init");
  if (sched::me >= 0) { sched::Lk* l = sched::lock_of(m); l->owner = -1; l->readers = 0; }
  return f(m, a);
}
#define RW(name, wr) NOTSAN int name(pthread_rwlock_t* m) { if (sched::me < 0) { static auto f = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, #name); return f(m); } sched::lock(m, wr); return 0; }
RW(pthread_rwlock_rdlock, false)
RW(pthread_rwlock_wrlock, true)
NOTSAN int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (sched::me < 0) { static auto f = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); return f(m); } sched::unlock(m); return 0; }
NOTSAN static int vcond_wait(pthread_cond_t* c, pthread_mutex_t* m, int timed)
{
  using namespace sched;
  unlock(m, false);
  th[me].st = WCOND; th[me].on = c; th[me].mut = m; th[me].timed = timed; th[me].wr = true;
  pass();
  int r = th[me].st == WCOND ? ETIMEDOUT : 0;
  lock_of(m)->owner = me; th[me].st = RUN;
  HB_ACQ(m);
  return r;
}
NOTSAN int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (sched::me < 0) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return f(c, m); } return vcond_wait(c, m, 0); }
NOTSAN int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (sched::me < 0) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return f(c, m, t); } return vcond_wait(c, m, 1); }
NOTSAN static void vcond_wake(void* c, bool all)
{
  using namespace sched;
  int w[MAXT], n = 0;
  for (int i = 0; i < nth; ++i) if (th[i].st == WCOND && th[i].on == c) w[n++] = i;
  if (!n) return;
  if (!all) { w[0] = w[rnd() % n]; n = 1; }
  for (int i = 0; i < n; ++i) { th[w[i]].st = WLOCK; th[w[i]].on = th[w[i]].mut; }
}
NOTSAN int pthread_cond_signal(pthread_cond_t* c) { if (sched::me < 0) { static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal"); return f(c); } vcond_wake(c, false); return 0; }
NOTSAN int pthread_cond_broadcast(pthread_cond_t* c) { if (sched::me < 0) { static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return f(c); } vcond_wake(c, true); return 0; }
// Called by the instrumented plug-ins
NOTSAN void vp_use(const char* kind, long obj, int begin_)
{
  using namespace sched;
  if (me < 0) return;
  if (begin_) pass();
  if (nbuf) putc_(',');
  puts_(begin_ ? "{\"e\":\"ub\",\"t\":" : "{\"e\":\"ue\",\"t\":"); puti(me); puts_(",\"k\":\""); puts_(kind); puts_("\",\"o\":"); puti(obj); putc_('}');
  if (begin_) pass();
}
NOTSAN void vp_yield() { sched::yield(); }
}
#endif
