/* A stand-in for libiio.so: records every call, keeps a model of what is open, injects faults, feeds RX samples and
   stores TX samples.  Loaded by the code under test with dlopen("libiio.so"). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <stdbool.h>
#include <sys/types.h>

struct ictl {
    volatile int64_t calls;        /* 0 fallible calls so far                     */
    volatile int64_t fail_at;      /* 1 countdown: the fallible call that fails   */
    volatile int64_t failed;       /* 2 */
    volatile int64_t contexts;     /* 3 live contexts                             */
    volatile int64_t buffers;      /* 4 live buffers                              */
    volatile int64_t enabled;      /* 5 enabled channels                          */
    volatile int64_t misuse;       /* 6 misuses of the API                        */
    volatile int64_t rx_delay_us;  /* 7 pacing of each refill                     */
    volatile int64_t rx_chunk;     /* 8 max samples per refill, 0 = full buffer   */
    volatile int64_t rx_end_mode;  /* 9 0: error at end of data, 1: silence for ever */
    volatile int64_t tx_delay_us;  /* 10 */
    volatile int64_t tx_fail_after;/* 11: push number that fails (1-based), 0 never */
    volatile int64_t pushes;       /* 12 */
    volatile int64_t refills;      /* 13 */
    volatile int64_t no_device;    /* 14 scan finds nothing                       */
    volatile int64_t ctx_created;  /* 15 */
    volatile int64_t rx_served;    /* 16 samples served */
    volatile int64_t rx_fail_at;   /* 17: refill number that fails */
    volatile int64_t scans;        /* 18: live scan contexts + info lists */
    volatile int64_t tx_short;     /* 19 */
    volatile int64_t fail_all;     /* 20: from fail_at on every fallible call fails */
};
static struct ictl local;
static struct ictl *c = &local;
static int log_fd = -1, rx_fd = -1, tx_fd = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("HARN_IIO_CTL");
    if (p != NULL) {
        int fd = open(p, O_RDWR);
        if (fd >= 0) {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            if (m != MAP_FAILED) c = m;
        }
    }
    if ((p = getenv("HARN_IIO_LOG")) != NULL) log_fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if ((p = getenv("HARN_IIO_RX")) != NULL) rx_fd = open(p, O_RDONLY | O_CLOEXEC);
    if ((p = getenv("HARN_IIO_TX")) != NULL) tx_fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
/* for a process which drives the code under test and this library at once */
void *h_iio_ctl(void) { return (void *) c; }
void h_iio_files(const char *log, const char *rx, const char *tx) {
    if (log_fd >= 0) close(log_fd);
    if (rx_fd >= 0) close(rx_fd);
    if (tx_fd >= 0) close(tx_fd);
    log_fd = rx_fd = tx_fd = -1;
    if (log != NULL) log_fd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_TRUNC | O_CLOEXEC, 0644);
    if (rx != NULL) rx_fd = open(rx, O_RDONLY | O_CLOEXEC);
    if (tx != NULL) tx_fd = open(tx, O_WRONLY | O_CREAT | O_APPEND | O_TRUNC | O_CLOEXEC, 0644);
}
static void logf_(const char *fmt, ...) {
    char line[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(line, sizeof line, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof line - 1) n = sizeof line - 1;
    if (log_fd >= 0) { if (write(log_fd, line, n) < 0) {} }
}
static void misuse(const char *what) { __atomic_add_fetch(&c->misuse, 1, __ATOMIC_RELAXED); logf_("MISUSE %s\n", what); }
static int fails(void) {
    int r = 0;
    pthread_mutex_lock(&mu);
    c->calls++;
    if (c->fail_at > 0 && --c->fail_at == 0) { c->failed++; r = 1; if (c->fail_all) c->fail_at = 1; }
    pthread_mutex_unlock(&mu);
    return r;
}
static void nap(int64_t us) { if (us > 0) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&ts, NULL); } }

struct iio_context { int magic; };
struct iio_device { char name[64]; };
struct iio_channel { struct iio_device *dev; char name[64]; bool output; int enabled; };
struct iio_buffer { struct iio_device *dev; size_t samples; char *data; size_t used; int magic; };
struct iio_scan_context { int x; };
struct iio_context_info { int x; };
#define CTX_MAGIC 0x77C0
#define BUF_MAGIC 0x77B0

static struct iio_device devices[8]; static int ndev;
static struct iio_channel channels[64]; static int nchan;

struct iio_scan_context *iio_create_scan_context(const char *backend, unsigned int flags) {
    logf_("create_scan_context\n");
    if (fails()) { errno = ENOMEM; return NULL; }
    __atomic_add_fetch(&c->scans, 1, __ATOMIC_RELAXED);
    return malloc(sizeof(struct iio_scan_context));
}
ssize_t iio_scan_context_get_info_list(struct iio_scan_context *ctx, struct iio_context_info ***info) {
    logf_("get_info_list\n");
    if (fails()) return -5;
    if (c->no_device) return 0;
    struct iio_context_info **l = malloc(sizeof(*l) * 2);
    l[0] = malloc(sizeof(struct iio_context_info)); l[1] = NULL;
    *info = l;
    __atomic_add_fetch(&c->scans, 1, __ATOMIC_RELAXED);
    return 1;
}
void iio_scan_context_destroy(struct iio_scan_context *ctx) { logf_("scan_context_destroy\n"); if (ctx) { free(ctx); __atomic_sub_fetch(&c->scans, 1, __ATOMIC_RELAXED); } }
const char *iio_context_info_get_uri(const struct iio_context_info *info) { (void) *(volatile const int *) &info->x; return "fake:1"; }
void iio_context_info_list_free(struct iio_context_info **info) { if (info) { free(info[0]); free(info); __atomic_sub_fetch(&c->scans, 1, __ATOMIC_RELAXED); } }
struct iio_context *iio_create_context_from_uri(const char *uri) {
    logf_("create_context %s\n", uri);
    if (fails()) { errno = EIO; return NULL; }
    __atomic_add_fetch(&c->contexts, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&c->ctx_created, 1, __ATOMIC_RELAXED);
    struct iio_context *x = malloc(sizeof *x); x->magic = CTX_MAGIC; return x;
}
void iio_context_destroy(struct iio_context *ctx) {
    logf_("context_destroy\n");
    if (ctx == NULL || ctx->magic != CTX_MAGIC) { misuse("context_destroy of a dead context"); return; }
    if (c->buffers != 0) misuse("context destroyed while buffers are open");
    ctx->magic = 0; free(ctx);
    __atomic_sub_fetch(&c->contexts, 1, __ATOMIC_RELAXED);
}
int iio_context_set_timeout(struct iio_context *ctx, unsigned int ms) {
    logf_("set_timeout %u\n", ms);
    if (ctx == NULL || ctx->magic != CTX_MAGIC) misuse("set_timeout on a dead context");
    return fails() ? -5 : 0;
}
struct iio_device *iio_context_find_device(const struct iio_context *ctx, const char *name) {
    if (ctx == NULL || ctx->magic != CTX_MAGIC) misuse("find_device on a dead context");
    /* the phy device always exists when a context does; only streaming devices may be absent */
    if (strcmp(name, "ad9361-phy") != 0 && fails()) { logf_("find_device %s -> none\n", name); return NULL; }
    pthread_mutex_lock(&mu);
    struct iio_device *r = NULL;
    for (int i = 0; i < ndev; i++) if (strcmp(devices[i].name, name) == 0) r = &devices[i];
    if (r == NULL && ndev < 8) { r = &devices[ndev++]; snprintf(r->name, sizeof r->name, "%s", name); }
    pthread_mutex_unlock(&mu);
    return r;
}
struct iio_channel *iio_device_find_channel(const struct iio_device *dev, const char *name, bool output) {
    if (dev == NULL) { misuse("find_channel on no device"); return NULL; }
    if (fails()) { logf_("find_channel %s %s %d -> none\n", dev->name, name, output); return NULL; }
    pthread_mutex_lock(&mu);
    struct iio_channel *r = NULL;
    for (int i = 0; i < nchan; i++) if (channels[i].dev == dev && strcmp(channels[i].name, name) == 0 && channels[i].output == output) r = &channels[i];
    if (r == NULL && nchan < 64) { r = &channels[nchan++]; r->dev = (struct iio_device *) dev; snprintf(r->name, sizeof r->name, "%s", name); r->output = output; }
    pthread_mutex_unlock(&mu);
    return r;
}
void iio_strerror(int err, char *dst, size_t len) { snprintf(dst, len, "fake error %d", err); }
#define CH(ch) (ch) != NULL ? (ch)->dev->name : "NULL", (ch) != NULL ? (ch)->name : "NULL", (ch) != NULL && (ch)->output ? "out" : "in"
ssize_t iio_channel_attr_write(const struct iio_channel *ch, const char *attr, const char *src) {
    if (ch == NULL) misuse("attr_write on no channel");
    int f = fails();
    logf_("attr %s/%s/%s %s = %s%s\n", CH(ch), attr, src, f ? " FAIL" : "");
    return f ? -5 : (ssize_t) strlen(src);
}
int iio_channel_attr_write_longlong(const struct iio_channel *ch, const char *attr, long long v) {
    if (ch == NULL) misuse("attr_write_longlong on no channel");
    int f = fails();
    logf_("attr %s/%s/%s %s = %lld%s\n", CH(ch), attr, v, f ? " FAIL" : "");
    return f ? -5 : 0;
}
int iio_channel_attr_write_bool(const struct iio_channel *ch, const char *attr, bool v) {
    if (ch == NULL) misuse("attr_write_bool on no channel");
    int f = fails();
    logf_("attr %s/%s/%s %s = %d%s\n", CH(ch), attr, (int) v, f ? " FAIL" : "");
    return f ? -5 : 0;
}
int iio_channel_attr_write_double(const struct iio_channel *ch, const char *attr, double v) {
    if (ch == NULL) misuse("attr_write_double on no channel");
    int f = fails();
    logf_("attr %s/%s/%s %s = %.6f%s\n", CH(ch), attr, v, f ? " FAIL" : "");
    return f ? -5 : 0;
}
int iio_device_attr_write_bool(const struct iio_device *dev, const char *attr, bool v) {
    int f = fails();
    logf_("devattr %s %s = %d%s\n", dev ? dev->name : "NULL", attr, (int) v, f ? " FAIL" : "");
    return f ? -5 : 0;
}
ssize_t iio_device_attr_write_raw(const struct iio_device *dev, const char *attr, const void *src, size_t len) {
    int f = fails();
    unsigned long sum = 5381;
    for (size_t i = 0; i < len; i++) sum = sum * 33 + ((const unsigned char *) src)[i];
    static char head[16384]; size_t h = len < sizeof head - 1 ? len : sizeof head - 1; size_t o = 0;
    pthread_mutex_lock(&mu);
    for (size_t i = 0; i < h; i++) head[o++] = ((const char *) src)[i] == '\n' ? '|' : ((const char *) src)[i];
    logf_("devraw %s %s len=%zu sum=%lu%s\n", dev ? dev->name : "NULL", attr, len, sum, f ? " FAIL" : "");
    if (log_fd >= 0 && !f) { head[o++] = '\n'; if (write(log_fd, "fir ", 4) < 0 || write(log_fd, head, o) < 0) {} }
    pthread_mutex_unlock(&mu);
    return f ? -5 : (ssize_t) len;
}
void iio_channel_enable(struct iio_channel *ch) {
    logf_("enable %s/%s/%s\n", CH(ch));
    if (ch == NULL) { misuse("enable no channel"); return; }
    pthread_mutex_lock(&mu); if (!ch->enabled) { ch->enabled = 1; c->enabled++; } pthread_mutex_unlock(&mu);
}
void iio_channel_disable(struct iio_channel *ch) {
    logf_("disable %s/%s/%s\n", CH(ch));
    if (ch == NULL) { misuse("disable no channel"); return; }
    if (c->contexts == 0) misuse("channel disabled after its context was destroyed");
    pthread_mutex_lock(&mu); if (ch->enabled) { ch->enabled = 0; c->enabled--; } pthread_mutex_unlock(&mu);
}
struct iio_buffer *iio_device_create_buffer(const struct iio_device *dev, size_t n, bool cyclic) {
    int f = fails();
    logf_("create_buffer %s %zu %d%s\n", dev ? dev->name : "NULL", n, (int) cyclic, f ? " FAIL" : "");
    if (f || n == 0) { errno = ENOMEM; return NULL; }
    struct iio_buffer *b = malloc(sizeof *b);
    b->dev = (struct iio_device *) dev; b->samples = n; b->data = malloc(n * 4); b->used = n; b->magic = BUF_MAGIC;
    memset(b->data, 0x55, n * 4);
    __atomic_add_fetch(&c->buffers, 1, __ATOMIC_RELAXED);
    return b;
}
void iio_buffer_destroy(struct iio_buffer *b) {
    logf_("buffer_destroy\n");
    if (b == NULL || b->magic != BUF_MAGIC) { misuse("buffer_destroy of a dead buffer"); return; }
    if (c->contexts == 0) misuse("buffer destroyed after its context");
    b->magic = 0; free(b->data); free(b);
    __atomic_sub_fetch(&c->buffers, 1, __ATOMIC_RELAXED);
}
void *iio_buffer_first(const struct iio_buffer *b, const struct iio_channel *ch) {
    if (b == NULL || b->magic != BUF_MAGIC) { misuse("buffer_first on a dead buffer"); abort(); }
    return b->data + (ch != NULL && strcmp(ch->name, "voltage1") == 0 ? 2 : 0);
}
void *iio_buffer_end(const struct iio_buffer *b) {
    if (b == NULL || b->magic != BUF_MAGIC) { misuse("buffer_end on a dead buffer"); abort(); }
    return b->data + b->used * 4;
}
ssize_t iio_buffer_push_partial(struct iio_buffer *b, size_t n) {
    if (b == NULL || b->magic != BUF_MAGIC) { misuse("push on a dead buffer"); abort(); }
    nap(c->tx_delay_us);
    int64_t k = __atomic_add_fetch(&c->pushes, 1, __ATOMIC_RELAXED);
    if (n > b->samples) misuse("push of more samples than the buffer holds");
    if (n == 0) misuse("push of nothing");
    if (c->tx_fail_after > 0 && k == c->tx_fail_after) { logf_("push %zu FAIL\n", n); return -110; }
    logf_("push %zu\n", n);
    if (n > b->samples) n = b->samples;
    if (tx_fd >= 0) { if (write(tx_fd, b->data, n * 4) < 0) {} }
    return (ssize_t) (n * 4);
}
ssize_t iio_buffer_push(struct iio_buffer *b) { return iio_buffer_push_partial(b, b->samples); }
ssize_t iio_buffer_refill(struct iio_buffer *b) {
    if (b == NULL || b->magic != BUF_MAGIC) { misuse("refill of a dead buffer"); abort(); }
    nap(c->rx_delay_us);
    int64_t k = __atomic_add_fetch(&c->refills, 1, __ATOMIC_RELAXED);
    if (c->rx_fail_at > 0 && k == c->rx_fail_at) return -110;
    size_t want = b->samples;
    if (c->rx_chunk > 0 && (size_t) c->rx_chunk < want) want = (size_t) c->rx_chunk;
    ssize_t got = rx_fd >= 0 ? read(rx_fd, b->data, want * 4) : 0;
    if (got <= 0) {
        if (c->rx_end_mode == 0) { nap(2000); return -110; }
        memset(b->data, 0, want * 4);
        got = (ssize_t) want * 4;
        nap(2000);
    } else {
        __atomic_add_fetch(&c->rx_served, got / 4, __ATOMIC_RELAXED);
    }
    b->used = (size_t) got / 4;
    return got;
}
