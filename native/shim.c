/* C side of the library-level harness: everything that needs the repository's own struct layouts. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <complex.h>
#include <time.h>
#include "sgpsdp/sgp4sdp4.h"
#include "sdr/sdr_device.h"
#include "sdr/plutosdr.h"
#include "sdr/file_source.h"
#include "server_config.h"
#include "linked_list.h"
#include "harness.h"

/* helpers of the orbital library no caller in the server needs: their absence is no error */
#pragma weak Date_Time
#pragma weak Calculate_LatLonAlt
#pragma weak Calculate_RADec_and_Obs
#pragma weak Calculate_Solar_Position
#pragma weak Sat_Eclipsed
#pragma weak Good_Elements
/* ---- orbit ---- */
int h_tle_parse(const char *lines, double *num, int *ints, char *name, char *idesg) {
    char tle[3][80];
    memcpy(tle, lines, sizeof tle);
    tle_t t;
    memset(&t, 0x7e, sizeof t);
    int r = Get_Next_Tle_Set(tle, &t);
    if (r == 1) {
        double v[] = {t.epoch, t.xndt2o, t.xndd6o, t.bstar, t.xincl, t.xnodeo, t.eo, t.omegao, t.xmo, t.xno};
        memcpy(num, v, sizeof v);
        ints[0] = t.catnr; ints[1] = t.elset; ints[2] = t.revnum; ints[3] = (int) t.status;
        ints[4] = (int) t.epoch_year; ints[5] = (int) t.epoch_day;
        num[10] = t.epoch_fod;
        memcpy(name, t.sat_name, sizeof t.sat_name);
        memcpy(idesg, t.idesg, sizeof t.idesg);
    }
    return r;
}
int h_tle_good(const char *two_lines) {
    char set[139];
    memcpy(set, two_lines, sizeof set);
    return Good_Elements == NULL ? -1 : Good_Elements(set);
}
/* elements straight into the propagator, the way doppler_create prepares them */
static sat_t *make_sat(const char *lines) {
    char tle[3][80];
    memcpy(tle, lines, sizeof tle);
    sat_t *s = calloc(1, sizeof *s);
    if (Get_Next_Tle_Set(tle, &s->tle) != 1) { free(s); return NULL; }
    select_ephemeris(s);
    s->jul_epoch = Julian_Date_of_Epoch(s->tle.epoch);
    return s;
}
/* out per time: x y z vx vy vz az el range range_rate ; *deep tells the model, jd of epoch in out_epoch */
int h_track(const char *lines, double lat, double lon, double alt, const double *tsince, int n, double *out, int *deep, double *out_epoch) {
    sat_t *s = make_sat(lines);
    if (s == NULL) return -1;
    geodetic_t g = {Radians(lat), Radians(lon), alt, 0.0};
    *deep = (s->flags & DEEP_SPACE_EPHEM_FLAG) ? 1 : 0;
    *out_epoch = s->jul_epoch;
    for (int i = 0; i < n; i++) {
        if (*deep) SDP4(s, tsince[i]); else SGP4(s, tsince[i]);
        Convert_Sat_State(&s->pos, &s->vel);
        obs_set_t o;
        memset(&o, 0, sizeof o);
        double jd = s->jul_epoch + tsince[i] / xmnpda;
        Calculate_Obs(jd, &s->pos, &s->vel, &g, &o);
        double v[] = {s->pos.x, s->pos.y, s->pos.z, s->vel.x, s->vel.y, s->vel.z, o.az, o.el, o.range, o.range_rate};
        memcpy(out + 10 * i, v, sizeof v);
    }
    free(s);
    return 0;
}
/* several satellites evaluated in the given order, every one with its own running state */
int h_track_multi(const char *lines, int nsat, const int *which, const double *tsince, int n, double *out) {
    sat_t *s[8];
    for (int i = 0; i < nsat; i++) {
        s[i] = make_sat(lines + 240 * i);
        if (s[i] == NULL) { while (i-- > 0) free(s[i]); return -1; }
    }
    for (int i = 0; i < n; i++) {
        sat_t *c = s[which[i]];
        if (c->flags & DEEP_SPACE_EPHEM_FLAG) SDP4(c, tsince[i]); else SGP4(c, tsince[i]);
        Convert_Sat_State(&c->pos, &c->vel);
        double v[] = {c->pos.x, c->pos.y, c->pos.z, c->vel.x, c->vel.y, c->vel.z};
        memcpy(out + 6 * i, v, sizeof v);
    }
    for (int i = 0; i < nsat; i++) free(s[i]);
    return 0;
}
double h_jd(int y, int mo, int d, int h, int mi, int s) {
    struct tm t; memset(&t, 0, sizeof t);
    t.tm_year = y; t.tm_mon = mo; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s;
    return Julian_Date(&t);
}
int h_latlonalt(double jd, const double *pos, double *out) {
    if (Calculate_LatLonAlt == NULL) return -1;
    geodetic_t g; memset(&g, 0, sizeof g);
    vector_t p = {pos[0], pos[1], pos[2], 0};
    Magnitude(&p);
    Calculate_LatLonAlt(jd, &p, &g);
    out[0] = g.lat; out[1] = g.lon; out[2] = g.alt; out[3] = g.theta;
    return 0;
}
int h_obs(double jd, const double *pv, double lat, double lon, double alt, double *out) {
    geodetic_t g = {lat, lon, alt, 0.0};
    vector_t p = {pv[0], pv[1], pv[2], 0}, v = {pv[3], pv[4], pv[5], 0};
    obs_set_t o; memset(&o, 0, sizeof o);
    Magnitude(&p); Magnitude(&v);
    Calculate_Obs(jd, &p, &v, &g, &o);
    out[0] = o.az; out[1] = o.el; out[2] = o.range; out[3] = o.range_rate;
    if (Calculate_RADec_and_Obs == NULL) return 1;
    obs_astro_t a; memset(&a, 0, sizeof a);
    Calculate_RADec_and_Obs(jd, &p, &v, &g, &a);
    out[4] = a.ra; out[5] = a.dec;
    return 0;
}

/* ---- linked list ---- */
struct item { long key; int destroyed; long visits; };
static struct item items[4096];
static int destroyed_log[4096]; static int destroyed_n;
static int visit_log[65536]; static int visit_n;
static linked_list *lists[8];
static void item_destroy(void *d) { struct item *i = d; i->destroyed++; if (destroyed_n < 4096) destroyed_log[destroyed_n++] = (int) (i - items); }
static bool by_key(void *id, void *d) { return ((struct item *) d)->key == *(long *) id; }
static long mod_m, mod_r;
static bool by_mod(void *d) { long k = ((struct item *) d)->key; return k % mod_m == mod_r; }
static void visit(void *arg, void *d) { (void) arg; if (visit_n < 65536) visit_log[visit_n++] = (int) ((struct item *) d - items); }
void h_list_reset(void) { memset(items, 0, sizeof items); destroyed_n = visit_n = 0; for (int i = 0; i < 8; i++) lists[i] = NULL; }
int h_list_add(int list, int item, long key) { items[item].key = key; return linked_list_add(&items[item], item_destroy, &lists[list]); }
int h_list_find(int list, long key) { void *r = linked_list_find(&key, by_key, lists[list]); return r == NULL ? -1 : (int) ((struct item *) r - items); }
int h_list_remove(int list, long key) { void *r = linked_list_remove_by_id(&key, by_key, &lists[list]); return r == NULL ? -1 : (int) ((struct item *) r - items); }
void h_list_destroy_by_id(int list, long key) { linked_list_destroy_by_id(&key, by_key, &lists[list]); }
void h_list_destroy_by_selector(int list, long m, long r) { mod_m = m; mod_r = r; linked_list_destroy_by_selector(by_mod, &lists[list]); }
int h_list_foreach(int list, int *out, int max) { visit_n = 0; linked_list_foreach(NULL, visit, lists[list]); int n = visit_n < max ? visit_n : max; memcpy(out, visit_log, n * sizeof(int)); return visit_n; }
void h_list_destroy(int list) { linked_list_destroy(lists[list]); lists[list] = NULL; }
int h_list_empty(int list) { return lists[list] == NULL; }
int h_list_destroyed(int *out) { memcpy(out, destroyed_log, destroyed_n * sizeof(int)); int n = destroyed_n; destroyed_n = 0; return n; }

/* ---- devices ---- */
int h_dev_rx(sdr_device *d, float complex **out, size_t *n) { return d->sdr_process_rx(out, n, d->plugin); }
int h_dev_tx(sdr_device *d, float complex *in, size_t n) { return d->sdr_process_tx(in, n, d->plugin); }
void h_dev_stop(sdr_device *d) { d->stop_rx(d->plugin); }
void h_dev_destroy(sdr_device *d) { d->destroy(d->plugin); free(d); }
static struct stream_cfg *cfg_of(const double *v) {
    if (v == NULL) return NULL;
    int64_t armed = hctl->alloc_fail_at;
    hctl->alloc_fail_at = 0;
    struct stream_cfg *c = malloc(sizeof *c);
    hctl->alloc_fail_at = armed;
    memset(c, 0, sizeof *c);
    c->sampling_freq = (uint64_t) v[0]; c->center_freq = (uint64_t) v[1]; c->gain_control_mode = (uint8_t) v[2];
    c->offset = (int64_t) v[3]; c->manual_gain = v[4];
    return c;
}
int h_pluto_create(int id, int rx_only, const double *rx, const double *tx, unsigned timeout_ms, uint32_t max, iio_lib *lib, sdr_device **out) {
    return plutosdr_create((uint32_t) id, rx_only != 0, cfg_of(rx), cfg_of(tx), timeout_ms, max, lib, out);
}
int h_file_create(int id, const char *rx, const char *tx, uint64_t fs, int64_t off, uint32_t max, sdr_device **out) {
    return file_source_create((uint32_t) id, rx, tx, fs, off, max, out);
}

/* ---- configuration: flat text of every field ---- */
int h_config(const char *path, char *out, size_t len) {
    struct server_config *c = NULL;
    int r = server_config_create(&c, path);
    if (r != 0) { out[0] = 0; return r; }
    snprintf(out, len, "bind_address=%s\nport=%u\nread_timeout_seconds=%d\nbuffer_size=%u\nqueue_size=%u\nrx_sdr_type=%u\n"
             "rx_sdr_server_address=%s\nrx_sdr_server_port=%d\nbase_path=%s\nrx_file_base_path=%s\ntx_file_base_path=%s\ntx_sdr_type=%u\n"
             "tx_plutosdr_gain=%.9g\nrx_plutosdr_gain=%.9g\ntx_plutosdr_timeout_millis=%u\niio=%d\n",
             c->bind_address ? c->bind_address : "(null)", c->port, c->read_timeout_seconds, c->buffer_size, c->queue_size, c->rx_sdr_type,
             c->rx_sdr_server_address ? c->rx_sdr_server_address : "(null)", c->rx_sdr_server_port, c->base_path ? c->base_path : "(null)",
             c->rx_file_base_path ? c->rx_file_base_path : "(null)", c->tx_file_base_path ? c->tx_file_base_path : "(null)", c->tx_sdr_type,
             c->tx_plutosdr_gain, c->rx_plutosdr_gain, c->tx_plutosdr_timeout_millis, c->iio != NULL);
    server_config_destroy(c);
    return 0;
}
