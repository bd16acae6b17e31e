/* Stand-in implementation of the libswiftnav functions gnss-converters calls.
 * Everything is written to be bounds-exact, so that AddressSanitizer sees any
 * out-of-range request made by the code under test. */
#include <assert.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/logging.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
#include <swiftnav/swift_strnlen.h>

/* ---- logging ---- */
unsigned long shim_log_count[8];
static void (*shim_log_impl)(int, const char *, ...);
void logging_set_implementation(void (*a)(int, const char *, ...),
                                void (*b)(int, const char *, const int, const char *, ...)) {
  (void)b;
  shim_log_impl = a;
}
void shim_log(int level, const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  shim_log_count[level & 7]++;
  if (shim_log_impl) shim_log_impl(level, "%s", buf);
  static int show = -1;
  if (show < 0) show = getenv("SHIM_LOG") != NULL;
  if (show) fprintf(stderr, "[log %d] %s\n", level, buf);
}

/* ---- memory ---- */
s32 memcpy_s(void *dest, size_t n_dest, const void *src, size_t n_src) {
  if (dest == NULL || n_dest == 0) return -1;
  if (src == NULL || n_dest < n_src) {
    memset(dest, 0, n_dest);
    return -1;
  }
  const u8 *d = (const u8 *)dest, *s = (const u8 *)src;
  if ((d > s && d < s + n_src) || (s > d && s < d + n_dest)) {
    memset(dest, 0, n_dest);
    return -1;
  }
  memcpy(dest, src, n_src);
  return 0;
}
size_t swift_strnlen(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i]) i++;
  return i;
}

/* ---- bits ---- */
u8 parity(u32 x) { return (u8)(__builtin_popcount(x) & 1); }
u64 getbitul(const u8 *buff, u32 pos, u8 len) {
  u64 r = 0;
  for (u32 i = pos; i < pos + len; i++) r = (r << 1) | ((buff[i / 8] >> (7 - i % 8)) & 1u);
  return r;
}
u32 getbitu(const u8 *buff, u32 pos, u8 len) { return (u32)getbitul(buff, pos, len); }
s64 getbitsl(const u8 *buff, u32 pos, u8 len) {
  u64 r = getbitul(buff, pos, len);
  if (len > 0 && len < 64 && (r >> (len - 1)) & 1) r |= ~(u64)0 << len;
  return (s64)r;
}
s32 getbits(const u8 *buff, u32 pos, u8 len) { return (s32)getbitsl(buff, pos, len); }
void setbitul(u8 *buff, u32 pos, u32 len, u64 data) {
  if (len == 0 || len > 64) return;
  for (u32 i = 0; i < len; i++) {
    u32 b = pos + i;
    u8 m = (u8)(1u << (7 - b % 8));
    if ((data >> (len - 1 - i)) & 1) buff[b / 8] |= m;
    else buff[b / 8] = (u8)(buff[b / 8] & ~m);
  }
}
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
  if (len == 0 || len > 32) return;
  setbitul(buff, pos, len, data);
}
void setbits(u8 *buff, u32 pos, u32 len, s32 data) { setbitul(buff, pos, len, (u64)(s64)data); }
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data) { setbitul(buff, pos, len, (u64)data); }
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = (u8 *)buf;
  u32 n = size * 8;
  for (u32 i = 0; i < n; i++) {
    u32 v = i + shift < n ? getbitu(b, i + shift, 1) : 0;
    setbitu(b, i, 1, v);
  }
}
void bitcopy(void *dst, u32 di, const void *src, u32 si, u32 count) {
  for (u32 i = 0; i < count; i++) setbitu((u8 *)dst, di + i, 1, getbitu((const u8 *)src, si + i, 1));
}
u8 count_bits_u64(u64 v, u8 bv) { int c = __builtin_popcountll(v); return (u8)(bv ? c : 64 - c); }
u8 count_bits_u32(u32 v, u8 bv) { int c = __builtin_popcount(v); return (u8)(bv ? c : 32 - c); }
u8 count_bits_u16(u16 v, u8 bv) { int c = __builtin_popcount(v); return (u8)(bv ? c : 16 - c); }
u8 count_bits_u8(u8 v, u8 bv) { int c = __builtin_popcount(v); return (u8)(bv ? c : 8 - c); }

/* ---- streams ---- */
void swiftnav_bitstream_init(swiftnav_bitstream_t *bs, const u8 *buf, u32 len) {
  bs->data = buf; bs->len = len; bs->offset = 0;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *bs) {
  return bs->len > bs->offset ? bs->len - bs->offset : 0;
}
static bool bs_ok(const swiftnav_bitstream_t *bs, u32 pos, u32 len) {
  return (u64)bs->offset + pos + len <= bs->len;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *bs, u32 *out, u32 pos, u8 len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitu(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *bs, s32 *out, u32 pos, u8 len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbits(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *bs, u64 *out, u32 pos, u8 len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitul(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *bs, s64 *out, u32 pos, u8 len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitsl(bs->data, bs->offset + pos, len);
  return true;
}
void swiftnav_bitstream_remove(swiftnav_bitstream_t *bs, u32 len) { bs->offset += len; }
void swiftnav_bytestream_init(swiftnav_bytestream_t *bs, const u8 *d, u32 len) {
  bs->data = d; bs->len = len; bs->offset = 0;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *bs) {
  return bs->len > bs->offset ? bs->len - bs->offset : 0;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *bs, u32 pos, u32 n, u8 *out) {
  if ((u64)bs->offset + pos + n > bs->len) return false;
  memcpy(out, bs->data + bs->offset + pos, n);
  return true;
}
void swiftnav_bytestream_remove(swiftnav_bytestream_t *bs, u32 n) { bs->offset += n; }

/* ---- error detection ---- */
static u32 crc24q_step(u32 crc, u8 byte) {
  crc ^= (u32)byte << 16;
  for (int i = 0; i < 8; i++) crc = crc & 0x800000u ? (crc << 1) ^ 0x1864CFBu : crc << 1;
  return crc & 0xFFFFFFu;
}
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  static u32 table[256];
  static bool init = false;
  if (!init) {
    for (u32 i = 0; i < 256; i++) table[i] = crc24q_step(0, (u8)i);
    init = true;
  }
  for (u32 i = 0; i < len; i++) crc = ((crc << 8) & 0xFFFFFFu) ^ table[((crc >> 16) ^ buf[i]) & 0xFF];
  return crc;
}
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
  /* the buffer is treated as n_bits right-aligned to a byte boundary */
  u32 pad = (8 - n_bits % 8) % 8;
  for (u32 i = 0; i < n_bits + pad; i++) {
    u32 bit = 0;
    if (i >= pad) {
      bit = getbitu(buf, i - pad, 1);
      if (invert) bit ^= 1;
    }
    u32 top = ((crc >> 23) & 1) ^ bit;
    crc = (crc << 1) & 0xFFFFFFu;
    if (top) crc ^= 0x864CFB;
  }
  return crc;
}
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc) {
  for (u32 i = 0; i < len; i++) {
    crc = (u16)(crc ^ (buf[i] << 8));
    for (int k = 0; k < 8; k++) crc = (u16)(crc & 0x8000 ? (crc << 1) ^ 0x1021 : crc << 1);
  }
  return crc;
}

/* ---- fifo ---- */
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size) {
  assert((size & (size - 1)) == 0);
  f->buffer = buffer; f->size = size; f->read_index = f->write_index = 0;
}
fifo_size_t fifo_length(const fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(const fifo_t *f) { return f->size - fifo_length(f); }
fifo_size_t fifo_peek(const fifo_t *f, u8 *b, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  for (fifo_size_t i = 0; i < n; i++) b[i] = f->buffer[(f->read_index + i) & (f->size - 1)];
  return n;
}
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  f->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n) { return fifo_remove(f, fifo_peek(f, b, n)); }
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n) {
  fifo_size_t s = fifo_space(f);
  if (n > s) n = s;
  for (fifo_size_t i = 0; i < n; i++) f->buffer[(f->write_index + i) & (f->size - 1)] = b[i];
  f->write_index += n;
  return n;
}

/* ---- signals ---- */
constellation_t code_to_constellation(code_t code) {
  switch ((int)code) {
    case CODE_GPS_L1CA: case CODE_GPS_L2CM: case CODE_GPS_L1P: case CODE_GPS_L2P:
    case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_GPS_L5I: case CODE_GPS_L5Q:
    case CODE_GPS_L5X: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX:
    case CODE_AUX_GPS:
      return CONSTELLATION_GPS;
    case CODE_SBAS_L1CA: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X:
    case CODE_AUX_SBAS:
      return CONSTELLATION_SBAS;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: case CODE_GLO_L1P: case CODE_GLO_L2P:
      return CONSTELLATION_GLO;
    case CODE_BDS2_B1: case CODE_BDS2_B2: case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ:
    case CODE_BDS3_B1CX: case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X:
    case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X: case CODE_BDS3_B3I:
    case CODE_BDS3_B3Q: case CODE_BDS3_B3X: case CODE_AUX_BDS:
      return CONSTELLATION_BDS;
    case CODE_QZS_L1CA: case CODE_QZS_L1CI: case CODE_QZS_L1CQ: case CODE_QZS_L1CX:
    case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: case CODE_QZS_L5I:
    case CODE_QZS_L5Q: case CODE_QZS_L5X: case CODE_AUX_QZS:
      return CONSTELLATION_QZS;
    case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_GAL_E6B:
    case CODE_GAL_E6C: case CODE_GAL_E6X: case CODE_GAL_E7I: case CODE_GAL_E7Q:
    case CODE_GAL_E7X: case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X:
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: case CODE_AUX_GAL:
      return CONSTELLATION_GAL;
    default:
      return CONSTELLATION_INVALID;
  }
}
bool code_valid(code_t c) { return c >= 0 && c < CODE_COUNT; }
bool constellation_valid(constellation_t c) { return c >= 0 && c < CONSTELLATION_COUNT; }
static u16 sat_start(constellation_t c) {
  switch ((int)c) {
    case CONSTELLATION_SBAS: return SBAS_FIRST_PRN;
    case CONSTELLATION_QZS: return QZS_FIRST_PRN;
    default: return 1;
  }
}
u16 constellation_to_sat_count(constellation_t c) {
  switch ((int)c) {
    case CONSTELLATION_GPS: return NUM_SATS_GPS;
    case CONSTELLATION_SBAS: return NUM_SATS_SBAS;
    case CONSTELLATION_GLO: return NUM_SATS_GLO;
    case CONSTELLATION_BDS: return NUM_SATS_BDS;
    case CONSTELLATION_QZS: return NUM_SATS_QZS;
    case CONSTELLATION_GAL: return NUM_SATS_GAL;
    default: return 0;
  }
}
u16 code_to_sat_start(code_t c) { return sat_start(code_to_constellation(c)); }
u16 code_to_sat_count(code_t c) { return constellation_to_sat_count(code_to_constellation(c)); }
bool sid_valid(gnss_signal_t sid) {
  if (!code_valid(sid.code)) return false;
  constellation_t c = code_to_constellation(sid.code);
  u16 first = sat_start(c);
  return sid.sat >= first && sid.sat < first + constellation_to_sat_count(c);
}
const char *code_to_string(code_t code) {
  static const char *const names[CODE_COUNT] = {
      "GPS L1CA", "GPS L2CM", "SBAS L1CA", "GLO L1OF", "GLO L2OF", "GPS L1P", "GPS L2P",
      "GPS L2CL", "GPS L2C", "GPS L5I", "GPS L5Q", "GPS L5", "BDS B1", "BDS B2", "GAL E1B",
      "GAL E1C", "GAL E1", "GAL E6B", "GAL E6C", "GAL E6", "GAL E5bI", "GAL E5bQ", "GAL E5b",
      "GAL AltBOC", "GAL AltBOC", "GAL AltBOC", "GAL E5aI", "GAL E5aQ", "GAL E5a", "GLO L1P",
      "GLO L2P", "QZS L1CA", "QZS L1CD", "QZS L1CP", "QZS L1C", "QZS L2CM", "QZS L2CL",
      "QZS L2C", "QZS L5I", "QZS L5Q", "QZS L5", "SBAS L5I", "SBAS L5Q", "SBAS L5",
      "BDS3 B1CD", "BDS3 B1CP", "BDS3 B1C", "BDS3 B2aD", "BDS3 B2aP", "BDS3 B2a", "BDS3 B2bI",
      "BDS3 B2bQ", "BDS3 B2b", "BDS3 B3I", "BDS3 B3Q", "BDS3 B3", "GPS L1CI", "GPS L1CQ",
      "GPS L1C", "GPS AUX", "SBAS AUX", "GAL AUX", "QZS AUX", "BDS AUX"};
  if (!code_valid(code)) return "invalid";
  return names[code];
}
int sid_to_string(char *s, int n, gnss_signal_t sid) {
  int nchars = snprintf(s, (size_t)n, "%s %u", code_to_string(sid.code), sid.sat);
  if (n > 0) s[n - 1] = '\0';
  return nchars;
}
code_t constellation_to_l1_code(constellation_t c) {
  switch ((int)c) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    default: return CODE_INVALID;
  }
}
int sid_compare(gnss_signal_t a, gnss_signal_t b) {
  if (a.code == b.code) return (int)a.sat - (int)b.sat;
  return (int)a.code - (int)b.code;
}
bool sid_is_equal(gnss_signal_t a, gnss_signal_t b) { return a.code == b.code && a.sat == b.sat; }

/* ---- lock time (DF402) ---- */
u8 encode_lock_time(double t) {
  assert(t >= 0.0);
  u64 ms = t < 4294967.0 ? (u64)(t * 1000.0) : 4294967295ull;
  u8 r = 0;
  for (int i = 0; i < 15; i++)
    if (ms >= (32ull << i)) r = (u8)(i + 1);
  return r;
}
double decode_lock_time(u8 v) {
  v &= 0x0F;
  return v == 0 ? 0.0 : (double)(32u << (v - 1)) / 1000.0;
}

/* ---- geoid ---- */
float get_geoid_offset(double lat, double lon) { return (float)(30.0 * sin(lat) + 10.0 * cos(lon - 0.7)); }

/* ---- time ---- */
bool gps_time_valid(const gps_time_t *t) {
  return isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0;
}
bool gps_current_time_valid(const gps_time_t *t) {
  return gps_time_valid(t) && t->wn >= GPS_WEEK_REFERENCE;
}
void unsafe_normalize_gps_time(gps_time_t *t) {
  if (t->tow < 0) {
    double k = ceil(-t->tow / WEEK_SECS);
    t->tow += k * WEEK_SECS;
    t->wn = (s16)(t->wn - k);
  }
  if (t->tow >= WEEK_SECS) {
    double k = floor(t->tow / WEEK_SECS);
    t->tow -= k * WEEK_SECS;
    t->wn = (s16)(t->wn + k);
  }
}
void normalize_gps_time(gps_time_t *t) {
  assert(isfinite(t->tow));
  unsafe_normalize_gps_time(t);
  assert(t->wn >= 0 || t->wn == WN_UNKNOWN);
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow) || fabs(t->tow) > 1e9) return false;
  unsafe_normalize_gps_time(t);
  return t->wn >= 0 || t->wn == WN_UNKNOWN;
}
void add_secs(gps_time_t *t, double s) {
  t->tow += s;
  normalize_gps_time(t);
}
double gpsdifftime(const gps_time_t *end, const gps_time_t *beg) {
  double dt = end->tow - beg->tow;
  if (end->wn == WN_UNKNOWN || beg->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) dt -= WEEK_SECS;
    if (dt < -WEEK_SECS / 2) dt += WEEK_SECS;
  } else {
    dt += (double)(end->wn - beg->wn) * WEEK_SECS;
  }
  return dt;
}
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref) {
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) t->wn--;
  else if (dt < -WEEK_SECS / 2) t->wn++;
}
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!(isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS)) return false;
  if (!gps_time_valid(ref)) return t->wn >= 0; /* nothing to match against */
  gps_time_match_weeks(t, ref);
  return t->wn >= 0;
}
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw + GPS_WEEK_CYCLE * ((wn_ref + GPS_WEEK_CYCLE - 1 - wn_raw) / GPS_WEEK_CYCLE));
}
static const struct { s16 wn; u32 tow; s8 offset; } leaps[] = {
    {77, 259200 + 1, 1},  {129, 345600 + 2, 2}, {181, 432000 + 3, 3}, {286, 86400 + 4, 4},
    {416, 432000 + 5, 5}, {521, 86400 + 6, 6},  {573, 172800 + 7, 7}, {651, 259200 + 8, 8},
    {703, 345600 + 9, 9}, {755, 432000 + 10, 10}, {834, 86400 + 11, 11}, {912, 172800 + 12, 12},
    {990, 432000 + 13, 13}, {1356, 0 + 14, 14}, {1512, 345600 + 15, 15}, {1695, 0 + 16, 16},
    {1851, 259200 + 17, 17}, {1930, 0 + 18, 18}};
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
  if (p) {
    double dt = gpsdifftime(t, &p->t_lse);
    return dt >= 1.0 ? p->dt_lsf : p->dt_ls;
  }
  double r = 0;
  for (size_t i = 0; i < ARRAY_SIZE(leaps); i++) {
    gps_time_t l = {leaps[i].tow, leaps[i].wn};
    if (gpsdifftime(t, &l) >= 0) r = leaps[i].offset;
  }
  return r;
}
double get_utc_gps_offset(const gps_time_t *t, const utc_params_t *p) { return -get_gps_utc_offset(t, p); }
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) { (void)t; (void)p; return false; }
gps_time_t time2gps_t(time_t t) {
  gps_time_t g;
  t -= GPS_EPOCH;
  g.wn = (s16)(t / WEEK_SECS);
  g.tow = (double)(t % WEEK_SECS);
  return g;
}
time_t gps2time(const gps_time_t *t) {
  return (time_t)GPS_EPOCH + (time_t)t->wn * WEEK_SECS + (time_t)floor(t->tow);
}
bool is_leap_year(s32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
u8 days_in_month(u16 year, u8 month) {
  static const u8 d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (month < 1 || month > 12) return 0;
  return (u8)(month == 2 && is_leap_year(year) ? 29 : d[month - 1]);
}
static s64 civil_days(s64 y, s64 m, s64 d) { /* days since 1970-01-01 */
  y -= m <= 2;
  s64 era = (y >= 0 ? y : y - 399) / 400;
  s64 yoe = y - era * 400;
  s64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  s64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
gps_time_t date2gps(s32 y, s32 mo, s32 d, s32 h, s32 mi, s32 s) {
  gps_time_t t = GPS_TIME_UNKNOWN;
  s64 days = civil_days(y, mo, d) - 3657;
  s64 secs = days * DAY_SECS + (s64)h * HOUR_SECS + (s64)mi * MINUTE_SECS + s;
  if (secs < 0 || secs / WEEK_SECS > 32767) return t;
  t.wn = (s16)(secs / WEEK_SECS);
  t.tow = (double)(secs % WEEK_SECS);
  t.tow += get_gps_utc_offset(&t, NULL);
  unsafe_normalize_gps_time(&t);
  return t;
}
void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
  double off = get_gps_utc_offset(t, p);
  double tow = t->tow - off;
  s64 secs = (s64)t->wn * WEEK_SECS + (s64)floor(tow);
  memset(u, 0, sizeof *u);
  u->second_frac = tow - floor(tow);
  time_t tt = (time_t)(secs + GPS_EPOCH);
  struct tm tm;
  gmtime_r(&tt, &tm);
  u->year = (u16)(tm.tm_year + 1900);
  u->month = (u8)(tm.tm_mon + 1);
  u->month_day = (u8)tm.tm_mday;
  u->hour = (u8)tm.tm_hour;
  u->minute = (u8)tm.tm_min;
  u->second_int = (u8)tm.tm_sec;
}

/* ---- broadcast ephemeris decoders ---- */
#define P2(n) ldexp(1.0, n)
static s32 sext(u32 v, int n) { return (s32)(v << (32 - n)) >> (32 - n); }
static const float gps_ura[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f,
                                  256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, -1.0f};
const float g_bds_ura_table[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f,
                                   256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 8192.0f};
void decode_ephemeris(const u32 w[3][8], ephemeris_t *e, double tot_tow) {
#define F(sf, word, sh, n) ((w[sf][(word) - 3] >> (sh)) & (u32)((1ull << (n)) - 1))
  ephemeris_kepler_t *k = &e->data.kepler;
  u16 wn = gps_adjust_week_cycle((u16)F(0, 3, 20, 10), GPS_WEEK_REFERENCE);
  u8 ura = (u8)F(0, 3, 14, 4);
  e->ura = gps_ura[ura];
  e->health_bits = (u8)F(0, 3, 8, 6);
  k->iodc = (u16)((F(0, 3, 6, 2) << 8) | F(0, 8, 22, 8));
  k->tgd.gps_s[0] = sext(F(0, 7, 6, 8), 8) * P2(-31);
  gps_time_t tot = {tot_tow, (s16)wn};
  k->toc.tow = F(0, 8, 6, 16) * 16.0;
  k->toc.wn = (s16)wn;
  k->af2 = sext(F(0, 9, 22, 8), 8) * P2(-55);
  k->af1 = sext(F(0, 9, 6, 16), 16) * P2(-43);
  k->af0 = sext(F(0, 10, 8, 22), 22) * P2(-31);
  k->iode = (u16)F(1, 3, 22, 8);
  k->crs = sext(F(1, 3, 6, 16), 16) * P2(-5);
  k->dn = sext(F(1, 4, 14, 16), 16) * P2(-43) * GPS_PI;
  k->m0 = (s32)((F(1, 4, 6, 8) << 24) | F(1, 5, 6, 24)) * P2(-31) * GPS_PI;
  k->cuc = sext(F(1, 6, 14, 16), 16) * P2(-29);
  k->ecc = ((F(1, 6, 6, 8) << 24) | F(1, 7, 6, 24)) * P2(-33);
  k->cus = sext(F(1, 8, 14, 16), 16) * P2(-29);
  k->sqrta = ((F(1, 8, 6, 8) << 24) | F(1, 9, 6, 24)) * P2(-19);
  e->toe.tow = F(1, 10, 14, 16) * 16.0;
  e->toe.wn = (s16)wn;
  gps_time_match_weeks(&e->toe, &tot);
  gps_time_match_weeks(&k->toc, &tot);
  u8 fit = (u8)F(1, 10, 13, 1);
  k->cic = sext(F(2, 3, 14, 16), 16) * P2(-29);
  k->omega0 = (s32)((F(2, 3, 6, 8) << 24) | F(2, 4, 6, 24)) * P2(-31) * GPS_PI;
  k->cis = sext(F(2, 5, 14, 16), 16) * P2(-29);
  k->inc = (s32)((F(2, 5, 6, 8) << 24) | F(2, 6, 6, 24)) * P2(-31) * GPS_PI;
  k->crc = sext(F(2, 7, 14, 16), 16) * P2(-5);
  k->w = (s32)((F(2, 7, 6, 8) << 24) | F(2, 8, 6, 24)) * P2(-31) * GPS_PI;
  k->omegadot = sext(F(2, 9, 6, 24), 24) * P2(-43) * GPS_PI;
  u16 iode3 = (u16)F(2, 10, 22, 8);
  k->inc_dot = sext(F(2, 10, 8, 14), 14) * P2(-43) * GPS_PI;
  e->fit_interval = fit ? 6 * 3600 : GPS_LNAV_FIT_INTERVAL_SEC;
  e->valid = (k->iode == iode3) && ((k->iodc & 0xFF) == k->iode) && ura < 15 && e->toe.wn >= 0;
#undef F
}

struct bitrd { u8 b[32]; u32 pos; };
static u32 ru(struct bitrd *r, u8 n) { u32 v = getbitu(r->b, r->pos, n); r->pos += n; return v; }
static s32 rs(struct bitrd *r, u8 n) { s32 v = getbits(r->b, r->pos, n); r->pos += n; return v; }
static void bds_load(struct bitrd *r, const u32 words[10]) {
  memset(r, 0, sizeof *r);
  u32 p = 0;
  for (int i = 0; i < 10; i++) {
    u32 n = i == 0 ? 26 : 22;
    setbitu(r->b, p, n, (words[i] >> (30 - n)) & ((1u << n) - 1));
    p += n;
  }
  r->pos = 18; /* preamble, reserved, FraID */
}
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e) {
  struct bitrd r;
  ephemeris_kepler_t *k = &e->data.kepler;
  e->sid = sid;
  bds_load(&r, words[0]);
  ru(&r, 20);
  e->health_bits = (u8)ru(&r, 1);
  k->iodc = (u16)ru(&r, 5);
  e->ura = g_bds_ura_table[ru(&r, 4)];
  u16 wn = (u16)(ru(&r, 13) + BDS_WEEK_TO_GPS_WEEK);
  k->toc.tow = ru(&r, 17) * 8.0;
  k->tgd.bds_s[0] = rs(&r, 10) * 1e-10;
  k->tgd.bds_s[1] = rs(&r, 10) * 1e-10;
  ru(&r, 32); ru(&r, 32);
  k->af2 = rs(&r, 11) * P2(-66);
  k->af0 = rs(&r, 24) * P2(-33);
  k->af1 = rs(&r, 22) * P2(-50);
  k->iode = (u16)ru(&r, 5);
  bds_load(&r, words[1]);
  ru(&r, 20);
  k->dn = rs(&r, 16) * P2(-43) * GPS_PI;
  k->cuc = rs(&r, 18) * P2(-31);
  k->m0 = rs(&r, 32) * P2(-31) * GPS_PI;
  k->ecc = ru(&r, 32) * P2(-33);
  k->cus = rs(&r, 18) * P2(-31);
  k->crc = rs(&r, 18) * P2(-6);
  k->crs = rs(&r, 18) * P2(-6);
  k->sqrta = ru(&r, 32) * P2(-19);
  u32 toe = ru(&r, 2) << 15;
  bds_load(&r, words[2]);
  ru(&r, 20);
  toe |= ru(&r, 15);
  k->inc = rs(&r, 32) * P2(-31) * GPS_PI;
  k->cic = rs(&r, 18) * P2(-31);
  k->omegadot = rs(&r, 24) * P2(-43) * GPS_PI;
  k->cis = rs(&r, 18) * P2(-31);
  k->inc_dot = rs(&r, 14) * P2(-43) * GPS_PI;
  k->omega0 = rs(&r, 32) * P2(-31) * GPS_PI;
  k->w = rs(&r, 32) * P2(-31) * GPS_PI;
  e->toe.tow = toe * 8.0;
  e->toe.wn = (s16)wn;
  k->toc.wn = (s16)wn;
}
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e) {
  struct bitrd r;
  ephemeris_kepler_t *k = &e->data.kepler;
#define LOAD(i) memset(&r, 0, sizeof r); memcpy(r.b, page[i], 16); r.pos = 6
  LOAD(0);
  u16 iod[4];
  iod[0] = (u16)ru(&r, 10);
  u32 toe = ru(&r, 14) * 60;
  k->m0 = rs(&r, 32) * P2(-31) * GPS_PI;
  k->ecc = ru(&r, 32) * P2(-33);
  k->sqrta = ru(&r, 32) * P2(-19);
  LOAD(1);
  iod[1] = (u16)ru(&r, 10);
  k->omega0 = rs(&r, 32) * P2(-31) * GPS_PI;
  k->inc = rs(&r, 32) * P2(-31) * GPS_PI;
  k->w = rs(&r, 32) * P2(-31) * GPS_PI;
  k->inc_dot = rs(&r, 14) * P2(-43) * GPS_PI;
  LOAD(2);
  iod[2] = (u16)ru(&r, 10);
  k->omegadot = rs(&r, 24) * P2(-43) * GPS_PI;
  k->dn = rs(&r, 16) * P2(-43) * GPS_PI;
  k->cuc = rs(&r, 16) * P2(-29);
  k->cus = rs(&r, 16) * P2(-29);
  k->crc = rs(&r, 16) * P2(-5);
  k->crs = rs(&r, 16) * P2(-5);
  u32 sisa = ru(&r, 8);
  LOAD(3);
  iod[3] = (u16)ru(&r, 10);
  e->sid.sat = (u16)ru(&r, 6);
  k->cic = rs(&r, 16) * P2(-29);
  k->cis = rs(&r, 16) * P2(-29);
  u32 toc = ru(&r, 14) * 60;
  k->af0 = rs(&r, 31) * P2(-34);
  k->af1 = rs(&r, 21) * P2(-46);
  k->af2 = rs(&r, 6) * P2(-59);
  LOAD(4);
  ru(&r, 11); ru(&r, 11); ru(&r, 14); ru(&r, 5);
  k->tgd.gal_s[0] = rs(&r, 10) * P2(-32);
  k->tgd.gal_s[1] = rs(&r, 10) * P2(-32);
  e->health_bits = (u8)ru(&r, 6);
  gps_time_t now;
  now.wn = (s16)(ru(&r, 12) + GAL_WEEK_TO_GPS_WEEK_);
  now.tow = ru(&r, 20);
#undef LOAD
  if (now.tow >= WEEK_SECS || toe >= WEEK_SECS || toc >= WEEK_SECS) return false;
  if (iod[0] != iod[1] || iod[1] != iod[2] || iod[2] != iod[3]) return false;
  e->toe.tow = toe;
  k->toc.tow = toc;
  gps_time_match_weeks(&e->toe, &now);
  gps_time_match_weeks(&k->toc, &now);
  if (sisa < 50) e->ura = (float)(sisa * 0.01);
  else if (sisa < 75) e->ura = (float)(0.5 + (sisa - 50) * 0.02);
  else if (sisa < 100) e->ura = (float)(1.0 + (sisa - 75) * 0.04);
  else if (sisa < 126) e->ura = (float)(2.0 + (sisa - 100) * 0.16);
  else e->ura = -1.0f;
  k->iode = k->iodc = iod[0];
  e->fit_interval = GAL_FIT_INTERVAL_SECONDS;
  e->valid = 1;
  e->sid.code = CODE_GAL_E1B;
  return true;
}
static u32 gx(const glo_string_t *s, u16 lo, u8 n) { /* 1-based bit index from the LSB */
  u32 r = 0;
  for (int i = n - 1; i >= 0; i--) {
    u32 b = (u32)(lo - 1 + i);
    r = (r << 1) | ((s->word[b / 32] >> (b % 32)) & 1u);
  }
  return r;
}
static double gsm(const glo_string_t *s, u16 lo, u8 n) { /* sign-magnitude */
  u32 v = gx(s, lo, n);
  u32 m = v & ((1u << (n - 1)) - 1);
  return (v >> (n - 1)) & 1 ? -(double)m : (double)m;
}
void decode_glo_ephemeris(const glo_string_t s[5], gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e) {
  static const float ura[16] = {1.0f, 2.0f, 2.5f, 4.0f, 5.0f, 7.0f, 10.0f, 12.0f,
                                14.0f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, -1.0f};
  ephemeris_glo_t *g = &e->data.glo;
  e->sid = sid;
  for (int i = 0; i < 3; i++) {
    g->pos[i] = gsm(&s[i], 9, 27) * P2(-11) * 1000;
    g->acc[i] = gsm(&s[i], 36, 5) * P2(-30) * 1000;
    g->vel[i] = gsm(&s[i], 41, 24) * P2(-20) * 1000;
  }
  u32 p1 = gx(&s[0], 77, 2);
  static const u32 fit[4] = {60, 30, 45, 60};
  e->fit_interval = (fit[p1] + 20) * 60;
  u32 tb = gx(&s[1], 70, 7);
  e->health_bits = (u8)(gx(&s[1], 80, 1) | gx(&s[2], 65, 1));
  g->gamma = gsm(&s[2], 69, 11) * P2(-40);
  g->tau = gsm(&s[3], 59, 22) * P2(-30);
  g->d_tau = gsm(&s[3], 54, 5) * P2(-30);
  e->ura = ura[gx(&s[3], 30, 4) & 15];
  u32 nt = gx(&s[3], 16, 11), n4 = gx(&s[4], 32, 5);
  /* tb is Moscow time (UTC + 3 h) */
  s64 days = civil_days(1996 + 4 * ((s64)n4 - 1), 1, 1) - 3657 + (s64)nt - 1;
  double sec = (double)days * DAY_SECS + tb * 900.0 - UTC_SU_OFFSET * HOUR_SECS;
  gps_time_t t = {0, 0};
  if (sec >= 0) {
    t.wn = (s16)floor(sec / WEEK_SECS);
    t.tow = sec - (double)t.wn * WEEK_SECS;
    t.tow += get_gps_utc_offset(&t, p);
    unsafe_normalize_gps_time(&t);
  }
  e->toe = t;
  g->iod = (u8)(tb & 0x7F);
  e->valid = 1;
}
