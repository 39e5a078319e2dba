/* Shared control block between the code under test (through link-time --wrap shims) and the checks. */
#ifndef HARNESS_H
#define HARNESS_H
#include <stdint.h>
struct hctl {
    volatile int64_t alloc_total;     /* 0: allocations requested by repo code so far            */
    volatile int64_t alloc_live;      /* 1: tracked allocations not yet freed                     */
    volatile int64_t alloc_fail_at;   /* 2: countdown; the allocation that makes it 0 returns NULL*/
    volatile int64_t alloc_failed;    /* 3: how many allocations were refused                     */
    volatile int64_t thread_fail_at;  /* 4: countdown for pthread_create                          */
    volatile int64_t thread_failed;   /* 5 */
    volatile int64_t threads_created; /* 6 */
    volatile int64_t rcvtimeo_us;     /* 7: microseconds per configured SO_RCVTIMEO second, 0=as is */
    volatile int64_t sched_prob;      /* 8: 0..1000 chance of a delay at a wrapped call            */
    volatile int64_t sched_max_us;    /* 9 */
    volatile int64_t sched_seed;      /* 10 */
    volatile int64_t sched_calls;     /* 11: delays taken                                         */
    volatile int64_t alloc_fail_all;  /* 12: keep failing after the first                          */
    volatile int64_t spawn_parent_us; /* 13: sleep in the creator right after pthread_create       */
    volatile int64_t spawn_child_us;  /* 14: sleep at start of each new thread                     */
    volatile int64_t close_us;        /* 15: sleep right after each close()                        */
    volatile int64_t fds_opened;      /* 16 */
    volatile int64_t join_us;         /* 17: sleep right before pthread_join                       */
    volatile int64_t destroy_us;      /* 18: sleep right after each free of >64 bytes? unused      */
    volatile int64_t alloc_max;       /* 19: refuse allocations larger than this many bytes (0: no limit) */
    volatile int64_t io_max;          /* 20: the most bytes one socket read or write takes, at random (0: no limit) */
    volatile int64_t sndbuf;          /* 21: SO_SNDBUF of accepted sockets (0: as is) */
    volatile int64_t rcvbuf;          /* 22: SO_RCVBUF of accepted sockets (0: as is) */
    volatile int64_t eintr;           /* 23: 0..1000 chance that a socket read or write is interrupted before any data */
    volatile int64_t eintrs;          /* 24: how many were */
    volatile int64_t trace;           /* 25: record where allocations are made */
    volatile int64_t traced;          /* 26: how many were */
    volatile int64_t sched_kinds;     /* 27: the kinds of calls which may be delayed, 0 for all */
    volatile int64_t dlsym_fail_at;   /* 28: the n-th symbol from now on is not found */
    volatile int64_t dlsym_failed;    /* 29 */
    volatile int64_t libs;            /* 30: libraries which are loaded */
    volatile int64_t sys_calls;       /* 31: sockets made, options set, connections made and files opened so far */
    volatile int64_t sys_fail_at;     /* 32: countdown; the one that makes it 0 fails */
    volatile int64_t sys_failed;      /* 33 */
    volatile int64_t accept_errs;     /* 34: how many of the next accept() calls fail */
    volatile int64_t accept_err;      /* 35: with which errno */
};
#define TRACE_AT 4096
#define TRACE_LEN 8192
extern struct hctl *hctl;
void harness_point(int kind);
#endif
