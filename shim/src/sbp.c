/* libsbp stand-in: framing and callbacks. */
#include <libsbp/sbp.h>
#include <string.h>

void sbp_state_init(sbp_state_t *s) { memset(s, 0, sizeof *s); }
void sbp_state_set_io_context(sbp_state_t *s, void *c) { s->io_context = c; }
static s8 reg(sbp_state_t *s, sbp_msg_type_t t, void *cb, int legacy, void *ctx, sbp_msg_callbacks_node_t *node) {
  for (sbp_msg_callbacks_node_t *q = s->head; q; q = q->next)
    if (q == node) { q->msg_type = t; q->cb = cb; q->legacy = legacy; q->context = ctx; return SBP_OK; }
  node->msg_type = t; node->cb = cb; node->legacy = legacy; node->context = ctx; node->next = NULL;
  sbp_msg_callbacks_node_t **p = &s->head;
  while (*p) p = &(*p)->next;
  *p = node;
  return SBP_OK;
}
s8 sbp_register_callback(sbp_state_t *s, u16 t, sbp_msg_callback_t cb, void *c, sbp_msg_callbacks_node_t *n) {
  return reg(s, (sbp_msg_type_t)t, (void *)(uintptr_t)cb, 1, c, n);
}
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t t, sbp_callback_t cb, void *c, sbp_msg_callbacks_node_t *n) {
  return reg(s, t, (void *)(uintptr_t)cb, 0, c, n);
}
/* Reads until one frame was handled or the reader gives nothing. */
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *buff, u32 n, void *context)) {
  for (;;) {
    u32 want;
    if (s->n == 0) want = 1;
    else if (s->n < 6) want = 6 - s->n;
    else want = (u32)(8 + s->buf[5]) - s->n;
    s32 k = read(s->buf + s->n, want, s->io_context);
    if (k < 0) return SBP_READ_ERROR;
    if (k == 0) return SBP_OK;
    s->n += (u32)k;
    if (s->buf[0] != SBP_PREAMBLE) { s->n = 0; continue; }
    if (s->n < 6 || s->n < (u32)(8 + s->buf[5])) continue;
    u8 len = s->buf[5];
    s->n = 0;
    u16 crc = crc16_ccitt(s->buf + 1, 5u + len, 0);
    if ((crc & 0xFF) != s->buf[6 + len] || (crc >> 8) != s->buf[7 + len]) return SBP_CRC_ERROR;
    u16 type = (u16)(s->buf[1] | (s->buf[2] << 8));
    u16 sender = (u16)(s->buf[3] | (s->buf[4] << 8));
    s8 ret = SBP_OK_CALLBACK_UNDEFINED;
    for (sbp_msg_callbacks_node_t *p = s->head; p; p = p->next) {
      if ((u16)p->msg_type != type) continue;
      ret = SBP_OK_CALLBACK_EXECUTED;
      if (p->legacy) {
        ((sbp_msg_callback_t)(uintptr_t)p->cb)(sender, len, s->buf + 6, p->context);
      } else {
        sbp_msg_t m;
        u8 nr;
        if (sbp_message_decode(s->buf + 6, len, &nr, p->msg_type, &m) != SBP_OK) return SBP_DECODE_ERROR;
        ((sbp_callback_t)(uintptr_t)p->cb)(sender, p->msg_type, &m, p->context);
      }
    }
    return ret;
  }
}
s8 sbp_send_message(sbp_state_t *s, u16 type, u16 sender, u8 len, u8 *payload, s32 (*write)(u8 *, u32, void *)) {
  if (!write || (len && !payload)) return SBP_NULL_ERROR;
  u8 f[SBP_MAX_FRAME_LEN];
  f[0] = SBP_PREAMBLE; f[1] = (u8)type; f[2] = (u8)(type >> 8);
  f[3] = (u8)sender; f[4] = (u8)(sender >> 8); f[5] = len;
  if (len) memcpy(f + 6, payload, len);
  u16 crc = crc16_ccitt(f + 1, 5u + len, 0);
  f[6 + len] = (u8)crc; f[7 + len] = (u8)(crc >> 8);
  s32 w = write(f, 8u + len, s->io_context);
  return w == (s32)(8u + len) ? SBP_OK : SBP_SEND_ERROR;
}
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t t, u16 sender, const sbp_msg_t *msg, sbp_write_fn_t write) {
  u8 payload[SBP_MAX_PAYLOAD_LEN];
  u8 n = 0;
  s8 r = sbp_message_encode(payload, sizeof payload, &n, t, msg);
  if (r != SBP_OK) return r;
  return sbp_send_message(s, (u16)t, sender, n, payload, write);
}
void sbp_msg_log_text_init(sbp_msg_log_t *m) { m->text.encoded_len = 0; m->text.data[0] = 0; }
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *buf, size_t len, bool trunc, size_t *n) {
  if (n) *n = 0;
  if (len > SBP_MSG_LOG_TEXT_MAX) {
    if (!trunc) return false;
    len = SBP_MSG_LOG_TEXT_MAX;
  }
  if (len) memcpy(m->text.data, buf, len);
  m->text.data[len] = 0;
  m->text.encoded_len = len;
  if (n) *n = len;
  return true;
}
