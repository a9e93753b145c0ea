/*
 * Black-box harness around the library's public interface.
 *
 * It plays the two roles the library leaves to its user: the UART drivers (one for the
 * master, one for the slave) and the master's data interface callbacks.  Everything the
 * library does to the outside is appended to an event log that the Python side reads
 * after every call.  Nothing here looks at the library's internals, except that the
 * receive buffers handed over by enable_rcev() are filled the way a UART driver fills
 * them (data[len++] = byte), as in the repository's example drivers.
 */
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_type.h"
#include "modbus_config.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
#ifdef SHIM_SIZES
#include SHIM_SIZES
#endif

#define LOGMAX (1 << 18)
int32_t shim_log[LOGMAX];
int32_t shim_n;
int32_t shim_overflow;

static void put(int32_t v)
{
    if (shim_n < LOGMAX)
        shim_log[shim_n++] = v;
    else
        shim_overflow = 1;
}
static void put_bytes(int32_t code, const uint8_t *b, int len)
{
    put(code);
    put(len);
    for (int i = 0; i < len; i++)
        put(b ? b[i] : -1);
}

typedef struct
{
    driver_subscr_cb_t t15, t35, ferr, txdone;
    modbus_req_resp_t *rx;
    bool rx_on;
    const uint8_t *tx;
    int tx_len;
    uint8_t tx_copy[256];
    int tx_pending; /* transmissions started and not yet reported done */
    int base;       /* offset of the log codes */
    int sync;       /* send() returns when the transmission is over */
    int resetting;  /* init() forgets callbacks and receive buffer */
} port_t;
static port_t P[2] = {{.base = 0}, {.base = 30}};

static void cross(int where, int port);
static void drv_init(port_t *p, baud_t b, parity_t par)
{
    put(p->base + 3);
    put((int32_t)b);
    put((int32_t)par);
    p->tx_pending = 0; /* a freshly initialised UART transmits nothing */
    p->tx = NULL;
    if (p->resetting)
    {
        p->t15 = p->t35 = p->ferr = p->txdone = NULL;
        p->rx = NULL;
        p->rx_on = false;
    }
}
static void drv_send(port_t *p, modbus_buf_t *d, modbus_buf_size_t n)
{
    put_bytes(p->base + 1, d, n);
    p->tx = d;
    p->tx_len = n;
    if (d)
        memcpy(p->tx_copy, d, n);
    p->tx_pending = 1;
    cross(1, p == &P[1]);
    if (p->sync)
    {   /* a blocking driver: the transmission is over, and reported, before send() returns */
        p->tx_pending = 0;
        p->tx = NULL; /* the buffer is the library's again */
        put(p->base + 6);
        if (p->txdone)
            p->txdone();
    }
}
static void drv_enable(port_t *p, modbus_req_resp_t *r)
{
    put(p->base + 2);
    p->rx = r;
    p->rx_on = true;
}
static void drv_disable(port_t *p)
{
    put(p->base + 5);
    p->rx_on = false;
}
#define DRIVER(N, I)                                                                 \
    static void N##_init(baud_t b, parity_t par) { drv_init(&P[I], b, par); }        \
    static void N##_send(modbus_buf_t *d, modbus_buf_size_t n) { drv_send(&P[I], d, n); } \
    static void N##_en(modbus_req_resp_t *r) { drv_enable(&P[I], r); }               \
    static void N##_dis(void) { drv_disable(&P[I]); }                                \
    static void N##_s15(driver_subscr_cb_t c) { P[I].t15 = c; }                      \
    static void N##_s35(driver_subscr_cb_t c) { P[I].t35 = c; }                      \
    static void N##_stx(driver_subscr_cb_t c) { P[I].txdone = c; }                   \
    static void N##_sfe(driver_subscr_cb_t c) { P[I].ferr = c; }                     \
    static const modbus_RTU_driver_struct_t N##_drv = {                              \
        .init = N##_init, .send = N##_send, .enable_rcev = N##_en, .disable_rcev = N##_dis, \
        .subscribe_t_1_5_char_expired_cb = N##_s15, .subscribe_msg_tx_done_cb = N##_stx,    \
        .subscribe_t_3_5_char_expired_cb = N##_s35, .subscribe_modbus_frame_error_cb = N##_sfe};
DRIVER(md, 0)
DRIVER(sd, 1)
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &md_drv; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sd_drv; }

/* ---- master data interface ---- */
/* a request the application issues from within its next callback */
int shim_m_req(int fc, int adr, int qty, int id, const int32_t *vals, int nvals);
static int32_t nest[5], nest_v[2048];
static int nest_on;
void shim_nest(int fc, int adr, int qty, int id, const int32_t *vals, int nvals)
{
    nest[0] = fc; nest[1] = adr; nest[2] = qty; nest[3] = id; nest[4] = nvals;
    for (int i = 0; i < nvals && i < 2048; i++) nest_v[i] = vals[i];
    nest_on = 1;
}
/* line events that happen while a callback runs: kind, n, number of bytes, bytes */
int shim_rx(int port, const uint8_t *b, int n);
void shim_t15(int port);
void shim_t35(int port);
void shim_ferr(int port);
void shim_txdone(int port);
void shim_m_tick(int n);
static int32_t in_ops[2048];
static int in_n, in_after;
void shim_within(const int32_t *ops, int n, int after)
{
    in_n = n < 2048 ? n : 0;
    memcpy(in_ops, ops, (size_t)in_n * sizeof *ops);
    in_after = after;
}
static void within(void)
{
    if (in_n == 0 || --in_after > 0)
        return;
    int n = in_n;
    in_n = 0;
    for (int i = 0; i < n;)
    {
        int k = in_ops[i], x = in_ops[i + 1], nb = in_ops[i + 2];
        uint8_t b[256];
        put(23); put(k); put(x); put(nb);
        for (int j = 0; j < nb; j++) { b[j & 255] = (uint8_t)in_ops[i + 3 + j]; put(in_ops[i + 3 + j]); }
        i += 3 + nb;
        switch (k)
        {
        case 0: shim_rx(0, b, nb); break;
        case 1: shim_t15(0); break;
        case 2: shim_t35(0); break;
        case 3: shim_ferr(0); break;
        case 4: shim_txdone(0); break;
        case 5: shim_m_tick(x); break;
        }
    }
}
/* line events and polls of the other side, while a callback of the master (where 0) or a driver's send() (1) runs */
static int32_t cr_ops[4096];
static int cr_n, cr_where, cr_after, cr_port;
void shim_m_poll(void);
void shim_s_poll(void);
void shim_diff(void);
void shim_cross(int where, int port, const int32_t *ops, int n, int after)
{
    cr_n = n < 4096 ? n : 0;
    memcpy(cr_ops, ops, (size_t)cr_n * sizeof *ops);
    cr_where = where; cr_port = port; cr_after = after;
}
static void cross(int where, int port)
{
    if (cr_n == 0 || where != cr_where || port != cr_port || --cr_after > 0)
        return;
    int n = cr_n, o = !port;
    cr_n = 0;
    for (int i = 0; i < n;)
    {
        int k = cr_ops[i], x = cr_ops[i + 1], nb = cr_ops[i + 2];
        uint8_t b[512];
        for (int j = 0; j < nb; j++) b[j & 511] = (uint8_t)cr_ops[i + 3 + j];
        i += 3 + nb;
        put(50);
        switch (k)
        {
        case 0: shim_rx(o, b, nb); break;
        case 1: shim_t15(o); break;
        case 2: shim_t35(o); break;
        case 3: shim_ferr(o); break;
        case 4: shim_txdone(o); break;
        case 5: shim_m_tick(x); break;
        case 6: if (o) shim_s_poll(); else shim_m_poll(); break;
        }
        if (o)
            shim_diff();
        put(51);
    }
}
static void nested(void)
{
    cross(0, 0);
    within();
    if (!nest_on)
        return;
    nest_on = 0;
    int at = shim_n;
    put(22);
    for (int i = 0; i < 5; i++) put(nest[i]);
    for (int i = 0; i < nest[4]; i++) put(nest_v[i]);
    int pos = shim_n;
    put(-1);
    int r = shim_m_req(nest[0], nest[1], nest[2], nest[3], nest_v, nest[4]);
    if (pos < LOGMAX) shim_log[pos] = r;
    (void)at;
}
#define V3(c, a, b, d) do { put(c); put(a); put(b); put(d); nested(); } while (0)
#define V5(c, a, b, d, e, f) do { put(c); put(a); put(b); put(d); put(e); put(f); nested(); } while (0)
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { V3(10, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { V3(11, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { V3(12, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { V3(13, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { V3(14, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { V3(15, s, a, q); }
static void exc(int c, const modbus_read_data_t *r)
{
    V5(c, r->slave_ID, (int32_t)r->fun_conde, (int32_t)r->exception_code, r->data_adr, r->data_qty);
}
void modbus_master_coil_exception(const modbus_read_data_t *r) { exc(16, r); }
void modbus_master_disin_exception(const modbus_read_data_t *r) { exc(17, r); }
void modbus_master_hreg_exception(const modbus_read_data_t *r) { exc(18, r); }
void modbus_master_inreg_exception(const modbus_read_data_t *r) { exc(19, r); }
static void err(int c, const modbus_master_error_report_t *r)
{
    int k = r->resp_read_error == MODBUS_MASTER_RESP_RTU_CRC_ERR ? 0 : r->resp_read_error == MODBUS_MASTER_RESP_TIMEOUT_ERR ? 1
          : r->resp_read_error == MODBUS_MASTER_RESP_FRAME_ERR ? 2 : 1000 + (int)r->resp_read_error;
    V5(c, r->slave_ID, (int32_t)r->fun_conde, r->data_adr, r->data_qty, k);
}
void modbus_master_data_timeout_error(const modbus_master_error_report_t *r) { err(20, r); }
void modbus_master_communication_error(const modbus_master_error_report_t *r) { err(21, r); }

/* the numbers of the specification for what the interface names */
static int m_ret(modbus_master_req_ret_t r)
{
    return r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE ? 0 : r == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR ? 1
         : r == MODBUS_MASTER_LIB_PDU_REQ_ERROR ? 2 : r == MODBUS_MASTER_LIB_RTU_SEND_ERROR ? 3 : 1000 + (int)r;
}
static modbus_mode_t mode_of(int m) { return m == 0 ? RTU : m == 1 ? UNKNOWN_MODE : (modbus_mode_t)m; }

/* ---- slave application data ---- */
#define CAP(x) ((x) > 0 ? (x) : 1)
static modbus_coil_disin_t *ap_coil[CAP(MAIN_APP_COILS_QTY)], *ap_din[CAP(MAIN_APP_DISCRET_INPUTS_QTY)];
static modbus_reg_t *ap_inreg[CAP(MAIN_APP_INPUT_REG_QTY)], *ap_hreg[CAP(MAIN_APP_HOLDING_REG_QTY)];
static int32_t sh_coil[CAP(MAIN_APP_COILS_QTY)], sh_din[CAP(MAIN_APP_DISCRET_INPUTS_QTY)];
static int32_t sh_inreg[CAP(MAIN_APP_INPUT_REG_QTY)], sh_hreg[CAP(MAIN_APP_HOLDING_REG_QTY)];

int shim_cfg(int what)
{
    switch (what)
    {
    case 0: return MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;
    case 1: return MODBUS_MASTER_RESP_TIME_OUT_MS;
    case 2: return MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR;
    case 3: return MAIN_APP_COILS_QTY;
    case 4: return MAIN_APP_DISCRET_INPUTS_QTY;
    case 5: return MAIN_APP_INPUT_REG_QTY;
    case 6: return MAIN_APP_HOLDING_REG_QTY;
    }
    return -1;
}

/* variables that were replaced by others: nobody may write them any more */
static struct { void *p; size_t n; int t, a; uint8_t was[2]; } gone[64];
static int gones;
static void retire(void *p, size_t n, int t, int a)
{
    int i = gones++ % 64;
    gone[i].p = p; gone[i].n = n; gone[i].t = t; gone[i].a = a;
    memcpy(gone[i].was, p, n);
}

/* every item gets its own allocation, so that the address sanitizer sees any access
 * beyond the registered item */
static uint8_t is_on[4][65536];
int shim_reg(int t, int adr, int on)
{
    if (t >= 0 && t < 4 && adr >= 0 && adr < 65536) is_on[t][adr] = on != 0;
#define REG1(AP, QTY, T, FN)                          \
    if (adr < 0 || adr >= (QTY)) return -1;           \
    if (on > 1 && AP[adr]) { retire(AP[adr], sizeof(T), t, adr); AP[adr] = NULL; }       \
    if (on) { if (!AP[adr]) AP[adr] = calloc(1, sizeof(T)); FN((modbus_adr_t)adr, AP[adr]); } \
    else FN((modbus_adr_t)adr, NULL);                 \
    return 0;
    switch (t)
    {
    case 0: REG1(ap_coil, MAIN_APP_COILS_QTY, modbus_coil_disin_t, register_app_data_to_modbus_slave_coils_table)
    case 1: REG1(ap_din, MAIN_APP_DISCRET_INPUTS_QTY, modbus_coil_disin_t, register_app_data_to_modbus_slave_din_table)
    case 2: REG1(ap_inreg, MAIN_APP_INPUT_REG_QTY, modbus_reg_t, register_app_data_to_modbus_slave_inreg_table)
    case 3: REG1(ap_hreg, MAIN_APP_HOLDING_REG_QTY, modbus_reg_t, register_app_data_to_modbus_slave_hreg_table)
    }
    return -1;
}
int shim_set(int t, int adr, int v)
{
    switch (t)
    {
    case 0: *(uint8_t *)ap_coil[adr] = (uint8_t)v; sh_coil[adr] = v; return 0;
    case 1: *(uint8_t *)ap_din[adr] = (uint8_t)v; sh_din[adr] = v; return 0;
    case 2: *ap_inreg[adr] = (modbus_reg_t)v; sh_inreg[adr] = v; return 0;
    case 3: *ap_hreg[adr] = (modbus_reg_t)v; sh_hreg[adr] = v; return 0;
    }
    return -1;
}
/* logs every item whose value differs from what was last seen */
void shim_diff(void)
{
#define D1(T, AP, SH, QTY, RD)                                     \
    for (int i = 0; i < (QTY); i++)                                \
        if (AP[i]) { int32_t v = RD(AP[i]); if (v != SH[i]) { SH[i] = v; put(40); put(T); put(i); put(v); } }
#define RB(p) (*(const uint8_t *)(p))
#define RW(p) (*(p))
    D1(0, ap_coil, sh_coil, MAIN_APP_COILS_QTY, RB)
    D1(1, ap_din, sh_din, MAIN_APP_DISCRET_INPUTS_QTY, RB)
    D1(2, ap_inreg, sh_inreg, MAIN_APP_INPUT_REG_QTY, RW)
    D1(3, ap_hreg, sh_hreg, MAIN_APP_HOLDING_REG_QTY, RW)
    for (int i = 0; i < gones && i < 64; i++)
        if (memcmp(gone[i].p, gone[i].was, gone[i].n) != 0)
        {
            memcpy(gone[i].was, gone[i].p, gone[i].n);
            put(40); put(4); put(gone[i].a); put(gone[i].was[0]);
        }
}

/* ---- calls and driver events ---- */
void shim_m_init(int mode, int baud, int par) { modbus_master_init(mode_of(mode), (baud_t)baud, (parity_t)par); }
void shim_s_init(int mode, int baud, int par, int id) { modbus_slave_init(mode_of(mode), (baud_t)baud, (parity_t)par, (modbus_device_ID_t)id); }
void shim_m_poll(void) { update_modbus_master_manager(); }
void shim_s_poll(void) { check_modbus_request(); }
void shim_m_tick(int n)
{
    while (n-- > 0)
        update_modbus_master_timout_timer();
}
/* the caller's array is only valid during the call: it is overwritten and freed afterwards */
int shim_m_req(int fc, int adr, int qty, int id, const int32_t *vals, int nvals)
{
    int r = -1;
    switch (fc)
    {
    case 1: return m_ret(modbus_master_read_coils((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id));
    case 2: return m_ret(modbus_master_read_discrete_inputs((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id));
    case 3: return m_ret(modbus_master_read_holding_reg((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id));
    case 4: return m_ret(modbus_master_read_input_reg((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id));
    case 5: return m_ret(modbus_master_write_single_coil((modbus_adr_t)adr, (modbus_device_ID_t)id, vals[0] != 0));
    case 6: return m_ret(modbus_master_write_single_reg((modbus_adr_t)adr, (modbus_device_ID_t)id, (modbus_reg_t)vals[0]));
    case 15:
    {
        size_t n = (size_t)(nvals > 0 ? nvals : 1);
        modbus_coil_disin_t *a = malloc(n * sizeof *a);
        for (int i = 0; i < nvals; i++) a[i] = vals[i] != 0;
        r = m_ret(modbus_master_write_multiple_coils((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id, a));
        for (int i = 0; i < nvals; i++) a[i] = !a[i];
        free(a);
        return r;
    }
    case 16:
    {
        size_t n = (size_t)(nvals > 0 ? nvals : 1);
        modbus_reg_t *a = malloc(n * sizeof *a);
        for (int i = 0; i < nvals; i++) a[i] = (modbus_reg_t)vals[i];
        r = m_ret(modbus_master_write_multiple_reg((modbus_adr_t)adr, (modbus_data_qty_t)qty, (modbus_device_ID_t)id, a));
        for (int i = 0; i < nvals; i++) a[i] = (modbus_reg_t)~a[i];
        free(a);
        return r;
    }
    }
    return r;
}
int shim_rx(int port, const uint8_t *b, int n)
{
    port_t *p = &P[port];
    if (!p->rx || !p->rx->data || !p->rx_on)
        return 0;
    int i;
    for (i = 0; i < n && p->rx->len < 255; i++)
    {
        p->rx->data[p->rx->len] = b[i];
        p->rx->len++;
    }
    return i;
}
void shim_sync(int port, int on) { P[port].sync = on; }
void shim_resetting(int port, int on) { P[port].resetting = on; }
int shim_tx_pending(int port) { return P[port].tx_pending; }
static void fire(driver_subscr_cb_t c)
{
    if (c)
        c();
}
void shim_t15(int port) { fire(P[port].t15); }
void shim_t35(int port) { fire(P[port].t35); }
void shim_ferr(int port) { fire(P[port].ferr); }
/* the UART has sent the buffer: log what the buffer holds now if it is not what was handed over */
void shim_txdone(int port)
{
    port_t *p = &P[port];
    if (p->tx && memcmp(p->tx, p->tx_copy, (size_t)p->tx_len) != 0)
        put_bytes(p->base + 4, p->tx, p->tx_len);
    p->tx = NULL;
    p->tx_pending = 0;
    fire(p->txdone);
}

/* ---- a long past: many transactions that are not recorded ---- */
static uint32_t wseed;
static uint32_t rnd(uint32_t n)
{
    wseed = wseed * 1664525u + 1013904223u;
    return (wseed >> 8) % n;
}
static int seal(uint8_t *f, int n)
{
    uint16_t c = 0xFFFF;
    for (int i = 0; i < n; i++)
    {
        c ^= f[i];
        for (int k = 0; k < 8; k++) c = (uint16_t)(c & 1 ? (c >> 1) ^ 0xA001 : c >> 1);
    }
    f[n] = (uint8_t)c;
    f[n + 1] = (uint8_t)(c >> 8);
    return n + 2;
}
static void polls(int port, int n)
{
    while (n-- > 0)
        if (port == 0) shim_m_poll(); else shim_s_poll();
}
static void hear(int port, const uint8_t *f, int n)
{
    shim_rx(port, f, n);
    polls(port, (int)rnd(2));
    shim_t15(port);
    polls(port, (int)rnd(2));
    shim_t35(port);
    polls(port, 4);
}
/* What the warm-up does in step i, a function of the seed: up to N requests that are queued together,
 * each with what becomes of it.  Python reads it too, in order to record a step. */
enum { REQ_WORDS = 16 }; /* how, fc, adr, qty, id, nvals, vals[10] */
static const int all_fc[] = {1, 2, 3, 4, 5, 6, 15, 16};
int shim_m_plan(int seed, int i, int32_t *o)
{
    int N = MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;
    wseed = (uint32_t)seed * 2654435761u + (uint32_t)i * 40503u + 12345u;
    for (int k = 0; k < 4; k++) rnd(2);
    int mood = ((uint32_t)seed >> 4) % 4; /* a quarter of the pasts consists of failures mostly */
    int k = rnd(4) ? 1 : 1 + (int)rnd((uint32_t)(N < 4 ? N : 4));
    for (int r = 0; r < k; r++, o += REQ_WORDS)
    {
        int fc = all_fc[rnd(8)];
        int q = fc == 5 || fc == 6 ? 1 : fc == 16 || fc == 3 || fc == 4 ? 1 + (int)rnd(3) : 1 + (int)rnd(10);
        o[0] = mood == 0 && rnd(2) ? (int32_t)rnd(5) : (int32_t)rnd(16);
        o[1] = fc; o[2] = (int32_t)rnd(60000); o[3] = q; o[4] = 1 + (int32_t)rnd(246);
        o[5] = fc >= 5 ? q : 0;
        for (int x = 0; x < 10; x++) o[6 + x] = fc == 6 || fc == 16 ? (int32_t)rnd(65536) : (int32_t)rnd(2);
    }
    return k;
}
static int32_t want[256], want_n;
static void expect(int32_t v) { if (want_n < 256) want[want_n++] = v; }
/* does the log hold these outcomes (and whatever else is not an outcome)? */
static int logged(void)
{
    int j = 0;
    for (int i = 0; i < shim_n;)
    {
        int c = shim_log[i], n = c == 1 || c == 4 ? 2 + shim_log[i + 1] : c == 3 ? 3 : c >= 10 && c <= 15 ? 4 : c >= 16 && c <= 21 ? 6 : 1;
        if (c >= 10 && c <= 21)
            for (int k = 0; k < n; k++, j++)
                if (j >= want_n || (want[j] != -1 && want[j] != shim_log[i + k])) return 0;
        i += n;
    }
    return j == want_n;
}
/* Steps 0..n-1.  Returns the number of the first step that looked different from what is usual (which
 * is not judged here: the recorded run may begin there), n if there was none. */
int shim_m_warm(int n, int seed)
{
    int T = MODBUS_MASTER_RESP_TIME_OUT_MS, R = MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR, odd = n;
    for (int i = 0; i < n; i++)
    {
        int32_t plan[8 * REQ_WORDS];
        int k = shim_m_plan(seed, i, plan);
        int ok = 1;
        if (rnd(8) == 0) shim_m_req(all_fc[rnd(4)], 0, 0, 1, plan + 6, 0);
        for (int r = 0; r < k; r++)
        {
            const int32_t *o = plan + r * REQ_WORDS;
            if (shim_m_req(o[1], o[2], o[3], o[4], o + 6, o[5]) != 0) ok = 0;
        }
        for (int r = 0; r < k; r++)
        {
            const int32_t *o = plan + r * REQ_WORDS;
            int how = o[0], fc = o[1], q = o[3], att = 0, tab = fc == 1 || fc == 5 || fc == 15 ? 0 : fc == 2 ? 1 : fc == 4 ? 3 : 2;
            want_n = 0;
            if (how == 0 && T >= 2000 && rnd(64)) how = 9;
            for (; att <= R; att++)
            {
                polls(0, 4);
                if (!P[0].tx_pending) break;
                const uint8_t *t = P[0].tx_copy;
                uint8_t f[256];
                int m = 0;
                if (t[0] != o[4] || t[1] != fc || t[2] * 256 + t[3] != o[2]) ok = 0;
                shim_txdone(0);
                polls(0, 1);
                if (how == 0) { shim_m_tick(T); polls(0, 4); break; }
                if (how == 1) { memcpy(f, t, 6); f[0] ^= 1; hear(0, f, seal(f, 6)); }
                f[0] = t[0]; f[1] = t[1];
                if (how == 2) { f[1] |= 128; f[2] = 2; m = seal(f, 3); }
                else if (t[1] <= 4)
                {
                    f[2] = (uint8_t)(t[1] <= 2 ? (q + 7) / 8 : 2 * q);
                    for (int x = 0; x < f[2]; x++) f[3 + x] = (uint8_t)rnd(256);
                    m = seal(f, 3 + f[2]);
                }
                else { memcpy(f, t, 6); m = seal(f, 6); }
                if (how > 4 || how == 1)
                {
                    want_n = 0;
                    if (fc <= 4)
                        for (int x = 0; x < q; x++)
                        {
                            expect(10 + tab); expect(o[4]); expect(o[2] + x);
                            expect(fc <= 2 ? f[3 + x / 8] >> (x % 8) & 1 : f[3 + 2 * x] * 256 + f[4 + 2 * x]);
                        }
                    else { expect(tab == 0 ? 14 : 15); expect(o[4]); expect(o[2]); expect(q); }
                }
                if (how == 3) f[m - 1] ^= 1;
                if (how == 4) { shim_rx(0, f, 1); shim_ferr(0); }
                hear(0, f, m);
                if (how != 3 && how != 4) { att++; break; }
            }
            if (how == 0 || how == 3 || how == 4)
            {
                expect(how == 0 ? 20 : 21); expect(o[4]); expect(fc); expect(o[2]); expect(-1); expect(how == 0 ? 1 : -1);
            }
            if (how == 2) { expect(16 + tab); expect(o[4]); expect(fc); expect(2); expect(o[2]); expect(-1); }
            if (!logged() || att != (how == 0 ? 0 : how == 3 || how == 4 ? R + 1 : 1)) ok = 0;
            shim_n = 0;
            if (P[0].tx_pending && r == k - 1) ok = 0;
        }
        if (!ok && odd == n) odd = i;
    }
    for (int k = 0; k < 3; k++)
    {
        if (P[0].tx_pending) shim_txdone(0);
        polls(0, 4);
        shim_m_tick(T);
        polls(0, 4);
    }
    shim_n = 0;
    return odd;
}
/* one request frame of step i: returns its length */
int shim_s_plan(int seed, int i, int id, int32_t *how, uint8_t *f)
{
    int m = 6;
    wseed = (uint32_t)seed * 2654435761u + (uint32_t)i * 40503u + 12345u;
    for (int k = 0; k < 4; k++) rnd(2);
    *how = ((uint32_t)seed >> 4) % 4 == 0 && rnd(2) ? (int32_t)rnd(5) : (int32_t)rnd(16);
    memset(f, 0, 32);
    f[0] = (uint8_t)id;
    f[1] = (uint8_t)all_fc[rnd(8)];
    f[3] = (uint8_t)rnd(4);
    if (f[1] == 5) f[4] = rnd(2) ? 255 : 0;
    else if (f[1] == 6) { f[4] = (uint8_t)rnd(256); f[5] = (uint8_t)rnd(256); }
    else f[5] = (uint8_t)(1 + rnd(3));
    if (f[1] > 6)
    {
        f[6] = (uint8_t)(f[1] == 15 ? 1 : 2 * f[5]);
        for (int k = 0; k < f[6]; k++) f[7 + k] = (uint8_t)rnd(256);
        m = 7 + f[6];
    }
    if (*how == 0) f[0] ^= 1;
    if (*how == 1) f[2] = 0xFF;
    if (*how == 2) f[1] = (uint8_t)(7 + rnd(8));
    m = seal(f, m);
    if (*how == 3) f[m - 1] ^= 1;
    return m;
}
static int item(int t, int a)
{
    static const int qty[] = {MAIN_APP_COILS_QTY, MAIN_APP_DISCRET_INPUTS_QTY, MAIN_APP_INPUT_REG_QTY, MAIN_APP_HOLDING_REG_QTY};
    if (a >= qty[t]) return -2;
    if (!is_on[t][a]) return -1;
    return t == 0 ? RB(ap_coil[a]) : t == 1 ? RB(ap_din[a]) : t == 2 ? RW(ap_inreg[a]) : RW(ap_hreg[a]);
}
int shim_s_warm(int n, int seed, int id)
{
    int odd = n;
    for (int i = 0; i < n; i++)
    {
        uint8_t f[32];
        int32_t how;
        int m = shim_s_plan(seed, i, id, &how, f), ok = 1, exc = 0, silent = how == 0 || how == 3 || how == 4;
        int fc = f[1], t = fc == 2 ? 1 : fc == 4 ? 2 : fc == 1 || fc == 5 || fc == 15 ? 0 : 3;
        int a = f[2] * 256 + f[3], q = fc == 5 || fc == 6 ? 1 : f[5], was[4] = {0};
        for (int x = 0; x < q && x < 4; x++) was[x] = item(t, a + x);
        if (how == 2) exc = 1;
        else
        {
            for (int x = 0; x < q; x++) if (item(t, a + x) == -1) exc = 4;
            for (int x = 0; x < q; x++) if (item(t, a + x) == -2) exc = 2;
        }
        if (how == 4) { shim_rx(1, f, 1); shim_ferr(1); }
        hear(1, f, m);
        const uint8_t *b = P[1].tx_copy;
        if (P[1].tx_pending != !silent) ok = 0;
        else if (!silent && exc) ok = b[1] == (fc | 128) && b[2] == exc;
        else if (!silent)
        {
            ok = b[1] == fc;
            for (int x = 0; ok && x < q; x++)
            {
                int v = item(t, a + x);
                if (fc <= 2) ok = v == (b[3 + x / 8] >> (x % 8) & 1);
                else if (fc <= 4) ok = v == b[3 + 2 * x] * 256 + b[4 + 2 * x];
                else if (fc == 5) ok = v == (f[4] != 0);
                else if (fc == 6) ok = v == f[4] * 256 + f[5];
                else if (fc == 15) ok = v == (f[7 + x / 8] >> (x % 8) & 1);
                else ok = v == f[7 + 2 * x] * 256 + f[8 + 2 * x];
            }
        }
        if (silent || exc || fc <= 4)
            for (int x = 0; x < q && x < 4; x++) if (was[x] != item(t, a + x) && exc != 4) ok = 0;
        if (!ok && odd == n) odd = i;
        if (P[1].tx_pending) { polls(1, (int)rnd(2)); shim_txdone(1); polls(1, 4); }
        shim_n = 0;
    }
    polls(1, 4);
    shim_n = 0;
    return odd;
}
