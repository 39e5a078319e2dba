#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <stdatomic.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include "harness.h"

static int64_t local_ctl[TRACE_AT / 8 + TRACE_LEN];
struct hctl *hctl = (struct hctl *) local_ctl;

__attribute__((constructor)) static void harness_init(void) {
    const char *path = getenv("HARN_CTL");
    if (path != NULL) {
        int fd = open(path, O_RDWR);
        if (fd >= 0) {
            void *p = mmap(NULL, TRACE_AT + 8 * TRACE_LEN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            if (p != MAP_FAILED) hctl = (struct hctl *) p;
        }
    }
}

struct hctl *h_ctl(void) { return hctl; }

/* ---- schedule noise ---- */
static __thread uint64_t rng_state;
static atomic_int thread_index;
static void nap(int64_t us) {
    if (us <= 0) return;
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
    while (nanosleep(&ts, &ts) != 0 && errno == EINTR) {}
}
static uint64_t rng_next(void) {
    if (rng_state == 0) {
        rng_state = (uint64_t) hctl->sched_seed * 0x9E3779B97F4A7C15ULL + (uint64_t) atomic_fetch_add(&thread_index, 1) * 0xD1B54A32D192ED03ULL + 1;
    }
    uint64_t x = rng_state;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    rng_state = x;
    return x * 0x2545F4914F6CDD1DULL;
}
void harness_point(int kind) {
    int64_t prob = hctl->sched_prob;
    if (prob <= 0) return;
    int64_t kinds = hctl->sched_kinds;
    if (kinds != 0 && ((kinds >> kind) & 1) == 0) return;
    uint64_t r = rng_next() >> 16;
    if ((int64_t) (r % 1000) < prob) {
        int saved = errno;
        __atomic_add_fetch(&hctl->sched_calls, 1, __ATOMIC_RELAXED);
        nap((int64_t) ((rng_next() >> 16) % (uint64_t) (hctl->sched_max_us > 0 ? hctl->sched_max_us : 1)));
        errno = saved;
    }
}

/* ---- allocation tracking: an open-addressing set of live pointers ---- */
#define SET_BITS 20
#define SET_SIZE (1u << SET_BITS)
static void *set_slots[SET_SIZE];
#define TOMB ((void *) 1)
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static pthread_mutex_t set_mutex = PTHREAD_MUTEX_INITIALIZER;
static unsigned slot_of(void *p) { return (unsigned) ((((uintptr_t) p) >> 4) * 0x9E3779B97F4A7C15ULL >> (64 - SET_BITS)); }
static void *track(void *p) {
    if (p == NULL) return p;
    __real_pthread_mutex_lock(&set_mutex);
    unsigned i = slot_of(p);
    for (unsigned n = 0; n < SET_SIZE; n++, i = (i + 1) & (SET_SIZE - 1)) {
        if (set_slots[i] == NULL || set_slots[i] == TOMB) { set_slots[i] = p; hctl->alloc_live++; break; }
    }
    __real_pthread_mutex_unlock(&set_mutex);
    return p;
}
static void untrack(void *p) {
    if (p == NULL) return;
    __real_pthread_mutex_lock(&set_mutex);
    unsigned i = slot_of(p);
    for (unsigned n = 0; n < SET_SIZE && set_slots[i] != NULL; n++, i = (i + 1) & (SET_SIZE - 1)) {
        if (set_slots[i] == p) {
            unsigned next = (i + 1) & (SET_SIZE - 1);
            set_slots[i] = set_slots[next] == NULL ? NULL : TOMB;
            hctl->alloc_live--;
            break;
        }
    }
    __real_pthread_mutex_unlock(&set_mutex);
}
/* Allocations larger than this never succeed here: with ASan a size computed by an overflow would abort the process
   instead of returning NULL as the C library does. */
#define HUGE_ALLOC (3ULL << 30)
static int refuse_at(unsigned long long size, void *where) {
    __atomic_add_fetch(&hctl->alloc_total, 1, __ATOMIC_RELAXED);
    if (hctl->trace) {
        int64_t k = __atomic_fetch_add(&hctl->traced, 1, __ATOMIC_RELAXED);
        if (k < TRACE_LEN) ((volatile int64_t *) ((char *) hctl + TRACE_AT))[k] = (int64_t) ((uintptr_t) where * 0x9E3779B97F4A7C15ULL + size);
    }
    if (size > HUGE_ALLOC || (hctl->alloc_max > 0 && size > (unsigned long long) hctl->alloc_max)) {
        __atomic_add_fetch(&hctl->alloc_failed, 1, __ATOMIC_RELAXED);
        errno = ENOMEM;
        return 1;
    }
    if (hctl->alloc_fail_at > 0) {
        int64_t left = __atomic_sub_fetch(&hctl->alloc_fail_at, 1, __ATOMIC_RELAXED);
        if (left == 0) {
            if (hctl->alloc_fail_all) hctl->alloc_fail_at = 1;
            __atomic_add_fetch(&hctl->alloc_failed, 1, __ATOMIC_RELAXED);
            errno = ENOMEM;
            return 1;
        }
    }
    return 0;
}
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__real_volk_malloc(size_t, size_t); void __real_volk_free(void *); char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
/* Fresh memory reads as NaN floats and wild pointers, never as zeros. */
static void poison(void *p, size_t n) { if (p != NULL) memset(p, 0xFF, n < (4u << 20) ? n : (4u << 20)); }
void *__wrap_malloc(size_t n) {
    if (refuse_at(n, __builtin_return_address(0))) return NULL;
    void *p = __real_malloc(n);
    
    poison(p, n);
    return track(p);
}
void *__wrap_calloc(size_t a, size_t b) {
    unsigned long long total;
    if (__builtin_mul_overflow((unsigned long long) a, (unsigned long long) b, &total)) total = ~0ULL;
    if (refuse_at(total, __builtin_return_address(0))) return NULL;
    return track(__real_calloc(a, b));
}
void *__wrap_realloc(void *p, size_t n) {
    if (refuse_at(n, __builtin_return_address(0))) return NULL;
    untrack(p);
    void *r = __real_realloc(p, n);
    if (r == NULL && n != 0) { track(p); return NULL; }
    return track(r);
}
void __wrap_free(void *p) { untrack(p); __real_free(p); }
/* volk_malloc goes to its own allocator inside libvolk, which the sanitizer sees as well: posix_memalign. */
void *__wrap_volk_malloc(size_t n, size_t al) {
    if (refuse_at(n, __builtin_return_address(0))) return NULL;
    void *p = NULL;
    if (al < sizeof(void *)) al = sizeof(void *);
    if (__real_posix_memalign(&p, al, n) != 0) return NULL;
    poison(p, n);
    return track(p);
}
void __wrap_volk_free(void *p) { untrack(p); __real_free(p); }
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    if (refuse_at(n, __builtin_return_address(0))) return ENOMEM;
    int r = __real_posix_memalign(out, al, n);
    if (r == 0) track(*out);
    return r;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
    if (refuse_at(n, __builtin_return_address(0))) return NULL;
    return track(__real_aligned_alloc(al, n));
}
char *__wrap_strdup(const char *s) {
    if (refuse_at(strlen(s) + 1, __builtin_return_address(0))) return NULL;
    return (char *) track(__real_strdup(s));
}

/* a parsed configuration counts as one live allocation */
void __real_config_init(void *); void __real_config_destroy(void *);
void __wrap_config_init(void *c) { __real_config_init(c); __atomic_add_fetch(&hctl->alloc_live, 1, __ATOMIC_RELAXED); }
void __wrap_config_destroy(void *c) { __real_config_destroy(c); __atomic_sub_fetch(&hctl->alloc_live, 1, __ATOMIC_RELAXED); }

/* ---- threads ---- */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
struct start { void *(*fn)(void *); void *arg; };
static void *trampoline(void *a) {
    struct start s = *(struct start *) a;
    __real_free(a);
    nap(hctl->spawn_child_us);
    harness_point(1);
    return s.fn(s.arg);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (hctl->thread_fail_at > 0 && __atomic_sub_fetch(&hctl->thread_fail_at, 1, __ATOMIC_RELAXED) == 0) {
        hctl->thread_failed++;
        return EAGAIN;
    }
    struct start *s = __real_malloc(sizeof(*s));
    s->fn = fn; s->arg = arg;
    int r = __real_pthread_create(t, attr, trampoline, s);
    if (r != 0) __real_free(s);
    else __atomic_add_fetch(&hctl->threads_created, 1, __ATOMIC_RELAXED);
    nap(hctl->spawn_parent_us);
    harness_point(2);
    return r;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **r) {
    nap(hctl->join_us);
    harness_point(3);
    /* what the C library does for a thread which was never started; the sanitizer aborts instead */
    if (t == (pthread_t) 0) return ESRCH;
    return __real_pthread_join(t, r);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { harness_point(4); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); harness_point(5); return r; }

/* ---- system calls which acquire something ---- */
static int refuse(int code) {
    __atomic_add_fetch(&hctl->sys_calls, 1, __ATOMIC_RELAXED);
    if (hctl->sys_fail_at <= 0 || __atomic_sub_fetch(&hctl->sys_fail_at, 1, __ATOMIC_RELAXED) != 0) return 0;
    __atomic_add_fetch(&hctl->sys_failed, 1, __ATOMIC_RELAXED);
    errno = code;
    return 1;
}
int __real_socket(int, int, int);
int __wrap_socket(int domain, int type, int protocol) {
    if (refuse(EMFILE)) return -1;
    return __real_socket(domain, type, protocol);
}
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t len) {
    if (refuse(EADDRNOTAVAIL)) return -1;
    return __real_connect(fd, a, len);
}

/* ---- sockets ---- */
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int level, int name, const void *val, socklen_t len) {
    if (refuse(ENOBUFS)) return -1;
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && hctl->rcvtimeo_us > 0 && len == sizeof(struct timeval)) {
        struct timeval tv = *(const struct timeval *) val;
        int64_t us = tv.tv_sec * hctl->rcvtimeo_us + (int64_t) ((double) tv.tv_usec * (double) hctl->rcvtimeo_us / 1e6);
        if ((tv.tv_sec != 0 || tv.tv_usec != 0) && us <= 0) us = 1000;
        tv.tv_sec = us / 1000000; tv.tv_usec = us % 1000000;
        return __real_setsockopt(fd, level, name, &tv, sizeof tv);
    }
    return __real_setsockopt(fd, level, name, val, len);
}
int __real_close(int);
int __wrap_close(int fd) { harness_point(6); int r = __real_close(fd); int e = errno; nap(hctl->close_us); harness_point(7); errno = e; return r; }
static size_t portion(size_t n) {
    int64_t m = hctl->io_max;
    if (m <= 0 || n <= 1) return n;
    size_t k = 1 + (size_t) ((rng_next() >> 16) % (uint64_t) m);
    return k < n ? k : n;
}
/* a process which was stopped and continued has its blocked socket calls interrupted once a timeout is set on them */
static int interrupted(void) {
    int64_t p = hctl->eintr;
    if (p <= 0 || (int64_t) ((rng_next() >> 16) % 1000) >= p) return 0;
    __atomic_add_fetch(&hctl->eintrs, 1, __ATOMIC_RELAXED);
    errno = EINTR;
    return 1;
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { harness_point(8); if (interrupted()) return -1; return __real_recv(fd, b, f & MSG_WAITALL ? n : portion(n), f); }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { harness_point(9); if (interrupted()) return -1; return __real_write(fd, b, portion(n)); }
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { harness_point(10); if (interrupted()) return -1; return __real_send(fd, b, portion(n), f); }
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (hctl->accept_errs > 0 && __atomic_sub_fetch(&hctl->accept_errs, 1, __ATOMIC_RELAXED) >= 0) {
        errno = (int) hctl->accept_err;
        return -1;
    }
    int s = __real_accept(fd, a, l);
    if (s >= 0) {
        int e = errno, v;
        if ((v = (int) hctl->sndbuf) > 0) __real_setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
        if ((v = (int) hctl->rcvbuf) > 0) __real_setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
        errno = e;
    }
    return s;
}
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how) { harness_point(11); return __real_shutdown(fd, how); }

/* ---- files: with HARN_JAIL set only files below that directory can be opened, whatever a client asks for ---- */
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
    const char *jail = getenv("HARN_JAIL");
    if (jail != NULL) {
        size_t n = strlen(jail);
        int inside = path[0] != '/' || (strncmp(path, jail, n) == 0 && path[n] == '/') || strcmp(path, "/dev/null") == 0 || strcmp(path, "/dev/full") == 0;
        if (!inside || strstr(path, "..") != NULL) {
            errno = EACCES;
            return NULL;
        }
    }
    if (refuse(EMFILE)) return NULL;
    return __real_fopen(path, mode);
}

/* ---- libraries ---- */
void *__real_dlopen(const char *, int);
void *__real_dlsym(void *, const char *);
int __real_dlclose(void *);
void *__wrap_dlopen(const char *name, int flags) {
    void *h = __real_dlopen(name, flags);
    if (h != NULL) __atomic_add_fetch(&hctl->libs, 1, __ATOMIC_RELAXED);
    return h;
}
int __wrap_dlclose(void *h) {
    __atomic_sub_fetch(&hctl->libs, 1, __ATOMIC_RELAXED);
    return __real_dlclose(h);
}
void *__wrap_dlsym(void *h, const char *name) {
    if (hctl->dlsym_fail_at > 0 && --hctl->dlsym_fail_at == 0) {
        hctl->dlsym_failed++;
        return NULL;
    }
    return __real_dlsym(h, name);
}
