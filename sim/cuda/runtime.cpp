// One device, simulated: every CUDA thread is a fibre, one fibre runs at a
// time and a seeded scheduler decides which.  Blocks run one after the other
// in seeded order (they share no data but disjoint output).
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>

struct cusim_dim3 { unsigned int x, y, z; };
extern "C" { cusim_dim3 threadIdx, blockIdx, blockDim, gridDim;
             int warpSize = 32; }

namespace {
enum State { READY, BLOCK, WARP, DONE };
enum Kind { SHFL, BALLOT, ACTIVE, SYNCW };
struct Thread
{
    ucontext_t ctx;
    State state;
    cusim_dim3 idx;
    Kind kind;
    unsigned mask;
    uint64_t value, result;
    int src, width;
};
const int MAXT = 1024;
const size_t STACK = 64*1024;
Thread T[MAXT];
char * stacks;
int nthread, nwarp;
ucontext_t sched;
int cur;
int ready[MAXT], nready;
int waiting, exited;
uint64_t rng, hash_;
int policy, preempt;
void (*entry)(void *);
void * entry_args;
char error_[256];
int has_error;
long steps, switches, syncs, shuffles;
sigjmp_buf escape;

uint64_t rnd()
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng*2685821657736338717ULL;
}
unsigned below(unsigned n) { return unsigned((rnd() >> 32) % n); }

void make_ready(int t) { T[t].state = READY; ready[nready++] = t; }

void to_sched() { swapcontext(&T[cur].ctx, &sched); }

void warp_check(int w)
{
    int lo = w*32, hi = lo + 32 < nthread ? lo + 32 : nthread;
    // group the waiting lanes by (kind, mask)
    for(int t = lo; t < hi; ++t)
    {
        if(T[t].state != WARP)
            continue;
        Kind kind = T[t].kind;
        unsigned mask = T[t].mask, need = 0, have = 0;
        for(int u = lo; u < hi; ++u)
        {
            unsigned bit = 1u << (u - lo);
            if(T[u].state == DONE || !(mask & bit))
                continue;
            need |= bit;
            if(T[u].state == WARP && T[u].kind == kind && T[u].mask == mask)
                have |= bit;
        }
        if(need != have || !need)
            continue;
        unsigned ballot = 0;
        for(int u = lo; u < hi; ++u)
            if((have >> (u - lo)) & 1 && T[u].value)
                ballot |= 1u << (u - lo);
        for(int u = lo; u < hi; ++u)
        {
            if(!((have >> (u - lo)) & 1))
                continue;
            if(kind == SHFL)
            {
                int wd = T[u].width, lane = u - lo;
                int src = (lane & ~(wd - 1)) | (T[u].src & (wd - 1));
                if((have >> src) & 1)
                    T[u].result = T[lo + src].value;
                else
                    T[u].result = rnd();    // undefined
            }
            else if(kind == BALLOT)
                T[u].result = ballot;
            else
                T[u].result = have;
        }
        ++shuffles;
        for(int u = lo; u < hi; ++u)
            if((have >> (u - lo)) & 1)
                { --waiting; make_ready(u); }
    }
}

int at_barrier;
void barrier_check()
{
    if(at_barrier && at_barrier == nthread - exited)
    {
        ++syncs;
        at_barrier = 0;
        for(int t = 0; t < nthread; ++t)
            if(T[t].state == BLOCK)
                make_ready(t);
    }
}

void body()
{
    entry(entry_args);
    T[cur].state = DONE;
    setcontext(&sched);
}

uint64_t warp_op(Kind k, unsigned mask, uint64_t v, int src, int width)
{
    Thread & t = T[cur];
    t.kind = k; t.mask = mask; t.value = v; t.src = src; t.width = width;
    t.state = WARP; t.result = 0;
    ++waiting;
    to_sched();
    return T[cur].result;
}

void on_alarm(int) { siglongjmp(escape, 1); }
}

extern "C" {
void cusim_error(const char * what, long a, long b)
{
    if(has_error++)
        return;
    snprintf(error_, sizeof(error_), "%s (%ld, %ld) in thread (%u, %u, %u) of "
             "block (%u, %u, %u)", what, a, b, threadIdx.x, threadIdx.y,
             threadIdx.z, blockIdx.x, blockIdx.y, blockIdx.z);
}
void cusim_garbage(void * p, size_t n)
{
    // mostly huge or not-a-number when read as floating point, and absurd as
    // an integer
    for(size_t i = 0; i < n; ++i)
        ((unsigned char *) p)[i] = i % 4 == 3 ? 0x7f : 0x80 | (rnd() >> 40);
}
void cusim_access(void)
{
    ++steps;
    if(preempt && below(100) < unsigned(preempt))
        { ready[nready++] = cur; to_sched(); }
}
static void own_bit(unsigned mask)
{
    int lane = cur & 31;
    if(!((mask >> lane) & 1))
        cusim_error("lane calls a warp primitive with a mask without it",
                    lane, long(mask));
}
static unsigned with_own(unsigned mask)
    { own_bit(mask); return mask | (1u << (cur & 31)); }
uint64_t cusim_shfl(unsigned mask, uint64_t v, int src, int width)
    { return warp_op(SHFL, with_own(mask), v, src, width); }
unsigned cusim_ballot(unsigned mask, int p)
    { return unsigned(warp_op(BALLOT, with_own(mask), p != 0, 0, 32)); }
unsigned cusim_activemask(void)
    { return unsigned(warp_op(ACTIVE, 0xFFFFFFFFu, 0, 0, 32)); }
void cusim_syncwarp(unsigned mask)
    { warp_op(SYNCW, with_own(mask), 0, 0, 32); }
void cusim_syncthreads(void)
{
    T[cur].state = BLOCK;
    ++at_barrier;
    to_sched();
}

// returns 0, 1 (error), 2 (no termination)
int cusim_launch(void (*fn)(void *), void * args, char * lo, char * hi,
                 const unsigned * grid, const unsigned * block,
                 uint64_t seed, int policy_, int preempt_, int cpu_limit,
                 char * message, uint64_t * stats)
{
    if(!stacks)
        stacks = (char *) mmap(0, STACK*MAXT, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                               -1, 0);
    gridDim = { grid[0], grid[1], grid[2] };
    blockDim = { block[0], block[1], block[2] };
    nthread = block[0]*block[1]*block[2];
    nwarp = (nthread + 31)/32;
    rng = seed*0x9E3779B97F4A7C15ULL + 0x1234567;
    policy = policy_; preempt = preempt_;
    entry = fn; entry_args = args;
    has_error = 0; error_[0] = 0; hash_ = 1469598103934665603ULL;
    steps = switches = syncs = shuffles = 0;
    int result = 0;

    struct sigaction sa, old;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_alarm;
    sigaction(SIGVTALRM, &sa, &old);
    struct itimerval it = {{0, 0}, {cpu_limit, 0}}, none = {{0, 0}, {0, 0}};
    unsigned nblock = grid[0]*grid[1]*grid[2];
    unsigned * order = (unsigned *) malloc(sizeof(unsigned)*(nblock + 1));
    for(unsigned i = 0; i < nblock; ++i)
        order[i] = i;
    if(policy)
        for(unsigned i = nblock; i > 1; --i)
        {
            unsigned j = below(i), x = order[i - 1];
            order[i - 1] = order[j]; order[j] = x;
        }
    if(sigsetjmp(escape, 1))
    {
        result = 2;
        cusim_error("kernel did not terminate", steps, switches);
        goto out;
    }
    setitimer(ITIMER_VIRTUAL, &it, 0);
    if(nthread < 1 || nthread > MAXT)
        { cusim_error("block size", nthread, MAXT); goto out; }
    for(unsigned b = 0; b < nblock && !has_error; ++b)
    {
        unsigned id = order[b];
        blockIdx = { id % grid[0], (id/grid[0]) % grid[1],
                     id/(grid[0]*grid[1]) };
        if(hi > lo)
            cusim_garbage(lo, hi - lo);
        nready = waiting = exited = at_barrier = 0;
        for(int t = 0; t < nthread; ++t)
        {
            T[t].idx = { t % block[0], (t/block[0]) % block[1],
                         t/(block[0]*block[1]) };
            getcontext(&T[t].ctx);
            T[t].ctx.uc_stack.ss_sp = stacks + STACK*t;
            T[t].ctx.uc_stack.ss_size = STACK;
            T[t].ctx.uc_link = 0;
            makecontext(&T[t].ctx, body, 0);
        }
        for(int t = nthread - 1; t >= 0; --t)
            make_ready(t);
        int focus = -1;             // warp that runs on its own (policy 3)
        while(nready)
        {
            int pick = nready - 1;
            if(policy == 1)
                pick = below(nready);
            else if(policy == 2)
                pick = 0;
            else if(policy == 3)
            {
                if(focus < 0 || below(64) == 0)
                    focus = ready[below(nready)]/32;
                int best = -1;
                for(int i = nready - 1; i >= 0; --i)
                    if(ready[i]/32 == focus && (best < 0 ||
                                                ready[i] < ready[best]))
                        best = i;
                if(best < 0)
                    { focus = -1; best = below(nready); }
                pick = best;
            }
            int t = ready[pick];
            if(policy == 2)
                memmove(ready, ready + 1, sizeof(int)*(nready - 1));
            else
                ready[pick] = ready[nready - 1];
            --nready;
            hash_ = (hash_ ^ unsigned(t))*1099511628211ULL;
            ++switches;
            cur = t;
            threadIdx = T[t].idx;
            swapcontext(&sched, &T[t].ctx);
            if(T[t].state == DONE)
                { ++exited; warp_check(t/32); barrier_check(); }
            else if(T[t].state == WARP)
                warp_check(t/32);
            else if(T[t].state == BLOCK)
                barrier_check();
        }
        if(exited != nthread && !has_error)
            cusim_error("threads wait for each other for ever", exited,
                        nthread);
    }
out:
    setitimer(ITIMER_VIRTUAL, &none, 0);
    sigaction(SIGVTALRM, &old, 0);
    free(order);
    if(has_error && !result)
        result = 1;
    strncpy(message, error_, 255);
    stats[0] = hash_; stats[1] = switches; stats[2] = steps;
    stats[3] = syncs; stats[4] = shuffles;
    return result;
}
}
