// A runtime for parallel regions that runs all threads of a team in one thread of the machine and decides, from a schedule it is given,
// which of them goes on: at the points where they meet (iterations dealt out, critical sections, locks, barriers) and at function entries.
// Defined in the program, its functions are used in place of those of libgomp and of the mutexes of the C library.
#include "gomp_shim.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <map>
#define QUIET __attribute__((no_instrument_function))
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace {
typedef unsigned long long u64;
struct Eh { void* caught; unsigned uncaught; };
struct Share { bool begun=false; long next=0, end=0, incr=1, chunk=1; int left=0; bool taken=false; };
struct Thread { ucontext_t ctx; void* stack=nullptr; bool done=false; Eh eh{nullptr,0}; int loop=-1; long from=0,to=0; };
struct Team { int n=1; std::vector<Thread> t; std::map<int,Share> shares; int arrived=0; unsigned gen=0; };
const size_t STACK=16u<<20;
Team* team=nullptr; int me=0; int depth=0; ucontext_t home; bool in_scheduler=true;
int max_threads=1, available=1; std::vector<int> picks; size_t pick_at=0; u64 rng=1; unsigned every=0, count_=0; 
std::vector<void*> stacks; long switches_=0, regions_=0;
// keep out of the allocator while inside it: these containers are only touched by the scheduler and by the functions below, never at function entries
std::set<const void*>& held(){ static std::set<const void*> s; return s; }
QUIET u64 rnd(){ rng=rng*6364136223846793005ull+1442695040888963407ull; return rng>>33; }
QUIET void leave(){ // back to the scheduler
  if (in_scheduler || !team) return;
  Thread& x=team->t[me]; in_scheduler=true; Eh* g=(Eh*)__cxxabiv1::__cxa_get_globals(); x.eh=*g; ++switches_;
  swapcontext(&x.ctx,&home);
  *(Eh*)__cxxabiv1::__cxa_get_globals()=x.eh; }
void (*body)(void*); void* body_data;
QUIET void entry(){ body(body_data); team->t[me].done=true; in_scheduler=true; swapcontext(&team->t[me].ctx,&home); }
QUIET void run_team(void (*fn)(void*), void* data, int n){
  Team tm; tm.n=n; tm.t.resize(n); team=&tm; body=fn; body_data=data; ++regions_;
  Eh* g=(Eh*)__cxxabiv1::__cxa_get_globals(); Eh mine=*g;
  for (int i=0;i<n;++i){ Thread& x=tm.t[i]; if ((int)stacks.size()<=i) stacks.push_back(mmap(nullptr,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0));
    getcontext(&x.ctx); x.ctx.uc_stack.ss_sp=stacks[i]; x.ctx.uc_stack.ss_size=STACK; x.ctx.uc_link=nullptr; makecontext(&x.ctx,entry,0); x.stack=stacks[i]; x.eh=Eh{nullptr,0}; }
  int left=n; u64 idle=0; int last=-1; unsigned stay=0;
  while (left){
    int k; if (pick_at<picks.size()) k=picks[pick_at++]%n; else if (stay && last>=0 && !tm.t[last].done){ k=last; --stay; } else { k=(int)(rnd()%n); stay= rnd()%3?0:rnd()%6; }
    for (int q=0;q<n && tm.t[k].done;++q) k=(k+1)%n;
    me=k; last=k; *g=tm.t[k].eh; in_scheduler=false; swapcontext(&home,&tm.t[k].ctx); in_scheduler=true;
    if (tm.t[k].done){ --left; stay=0; }
    if (++idle>400000000ull){ std::fprintf(stderr,"no progress\n"); std::abort(); } }
  *g=mine; team=nullptr; me=0; }
struct Serial { Team tm; Team* old; };
}
namespace shim {
QUIET void schedule(int threads, unsigned seed, unsigned preempt, const std::vector<int>& p){ available=max_threads=threads; rng=seed*2654435761ull+1; every=preempt; picks=p; pick_at=0; count_=0; }
QUIET long switches(){ long s=switches_; switches_=0; return s; }
QUIET long regions(){ long s=regions_; regions_=0; return s; }
}
extern "C" {
QUIET void __cyg_profile_func_enter(void*, void*){ if (in_scheduler || !every) return; if (++count_>=every){ count_=0; every= every>1?every:1; if (rnd()%2) leave(); } }
QUIET void __cyg_profile_func_exit(void*, void*){}
QUIET void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned){
  int k= n?(int)n:max_threads; if (k<1) k=1;
  if (team){ ++depth; fn(data); --depth; return; }          // a region within a region has one thread
  run_team(fn,data,k); }
QUIET int omp_get_max_threads(){ return max_threads; }
QUIET void omp_set_num_threads(int n){ if (n>0) max_threads=n; }
QUIET int omp_get_num_threads(){ return team && !depth ? team->n : 1; }
QUIET int omp_get_thread_num(){ return team && !depth ? me : 0; }
QUIET int omp_in_parallel(){ return team && team->n>1; }
QUIET int omp_get_num_procs(){ return available; }
QUIET int omp_get_thread_limit(){ return 1000; }
QUIET void omp_set_dynamic(int){}
QUIET int omp_get_dynamic(){ return 0; }
QUIET void omp_set_nested(int){}
QUIET int omp_get_nested(){ return 0; }
QUIET int omp_get_level(){ return (team?1:0)+depth; }
QUIET double omp_get_wtime(){ return 0; }
QUIET void GOMP_barrier(){ if (!team||depth) return; unsigned g=team->gen; if (++team->arrived==team->n){ team->arrived=0; ++team->gen; } else while (team->gen==g) leave(); }
QUIET void shim_lock(const void* p){ leave(); while (held().count(p)) leave(); held().insert(p); }
QUIET void shim_unlock(const void* p){ held().erase(p); leave(); }
static const char crit=0, atom=0;
QUIET void GOMP_critical_start(){ shim_lock(&crit); }
QUIET void GOMP_critical_end(){ shim_unlock(&crit); }
QUIET void GOMP_critical_name_start(void** p){ shim_lock(p); }
QUIET void GOMP_critical_name_end(void** p){ shim_unlock(p); }
QUIET void GOMP_atomic_start(){ shim_lock(&atom); }
QUIET void GOMP_atomic_end(){ shim_unlock(&atom); }
// mutexes: those locked outside of a team are not contended
QUIET int pthread_mutex_lock(pthread_mutex_t* m){ if (team && !in_scheduler) shim_lock(m); return 0; }
QUIET int pthread_mutex_unlock(pthread_mutex_t* m){ if (team && !in_scheduler) shim_unlock(m); return 0; }
QUIET int pthread_mutex_trylock(pthread_mutex_t* m){ if (!(team && !in_scheduler)) return 0; leave(); return held().insert(m).second?0:16; }
QUIET void omp_init_lock(void*){} 
QUIET void omp_destroy_lock(void*){}
QUIET void omp_set_lock(void* p){ if (team && !in_scheduler) shim_lock(p); }
QUIET void omp_unset_lock(void* p){ if (team && !in_scheduler) shim_unlock(p); }
QUIET int omp_test_lock(void* p){ return held().insert(p).second; }
// loops: shared out a chunk at a time, whoever comes first
static Share lone[8];
QUIET static Share& share(bool begin, long s, long e, long i, long c){
  if (!team||depth){ static Share one; Share& x= depth<8?lone[depth]:one; if (begin){ x.next=s; x.end=e; x.incr=i; x.chunk=c<1?1:c; } return x; }
  Thread& t=team->t[me]; if (begin) ++t.loop; Share& x=team->shares[t.loop]; if (begin && !x.begun){ x.begun=true; x.next=s; x.end=e; x.incr=i; x.chunk=c<1?1:c; } return x; }
QUIET static bool next(Share& x, long* a, long* b){ leave(); long left= x.incr>0?x.end-x.next:x.next-x.end; if (left<=0) return false; long s=x.chunk*x.incr, z=x.next+s; if (x.incr>0?z>x.end:z<x.end) z=x.end; *a=x.next; *b=z; x.next=z; return true; }
#define LOOP(K) QUIET bool GOMP_loop_##K##_start(long s,long e,long i,long c,long* a,long* b){ return next(share(true,s,e,i,c),a,b); } \
  QUIET bool GOMP_loop_##K##_next(long* a,long* b){ return next(share(false,0,0,0,0),a,b); } \
  QUIET void GOMP_parallel_loop_##K(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ (void)s;(void)e;(void)i;(void)c; start_all(fn,d,n,s,e,i,c,f); } \
  QUIET bool GOMP_loop_ull_##K##_start(bool,u64 s,u64 e,u64 i,u64 c,u64* a,u64* b){ long x,y; bool r=next(share(true,(long)s,(long)e,(long)i,(long)c),&x,&y); *a=(u64)x; *b=(u64)y; return r; } \
  QUIET bool GOMP_loop_ull_##K##_next(u64* a,u64* b){ long x,y; bool r=next(share(false,0,0,0,0),&x,&y); *a=(u64)x; *b=(u64)y; return r; }
struct Start { void (*fn)(void*); void* d; long s,e,i,c; };
QUIET static void started(void* p){ Start& x=*(Start*)p; share(true,x.s,x.e,x.i,x.c); x.fn(x.d); }
QUIET static void start_all(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned f){ Start x{fn,d,s,e,i,c}; GOMP_parallel(started,&x,n,f); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
QUIET void GOMP_loop_end(){ GOMP_barrier(); }
QUIET void GOMP_loop_end_nowait(){}
QUIET bool GOMP_single_start(){ leave(); Share& x=share(true,0,0,1,1); bool r=!x.taken; x.taken=true; return r; }
QUIET unsigned GOMP_sections_start(unsigned n){ long a,b; Share& x=share(true,1,(long)n+1,1,1); return next(x,&a,&b)?(unsigned)a:0; }
QUIET unsigned GOMP_sections_next(){ long a,b; return next(share(false,0,0,0,0),&a,&b)?(unsigned)a:0; }
QUIET void GOMP_sections_end(){ GOMP_barrier(); }
QUIET void GOMP_sections_end_nowait(){}
QUIET void GOMP_taskwait(){}
QUIET void GOMP_ordered_start(){}
QUIET void GOMP_ordered_end(){}
}
