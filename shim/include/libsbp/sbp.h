/* libsbp stand-in: framing, callbacks and message encode/decode. */
#ifndef SHIM_LIBSBP_SBP_H
#define SHIM_LIBSBP_SBP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <swiftnav/common.h>
#include <libsbp/sbp_msg_type.h>
#include <libsbp/types_v4.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_PREAMBLE 0x55
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_MAX_FRAME_LEN 263
#define SBP_OK 0
#define SBP_OK_CALLBACK_EXECUTED 1
#define SBP_OK_CALLBACK_UNDEFINED 2
#define SBP_CALLBACK_ERROR -1
#define SBP_CRC_ERROR -2
#define SBP_SEND_ERROR -3
#define SBP_NULL_ERROR -4
#define SBP_WRITE_ERROR -5
#define SBP_READ_ERROR -6
#define SBP_DECODE_ERROR -7
#define SBP_ENCODE_ERROR -8

typedef s32 (*sbp_read_fn_t)(u8 *buff, u32 n, void *context);
typedef s32 (*sbp_write_fn_t)(u8 *buff, u32 n, void *context);
typedef void (*sbp_msg_callback_t)(u16 sender_id, u8 len, u8 msg[], void *context);
typedef void (*sbp_callback_t)(u16 sender_id, sbp_msg_type_t t, const sbp_msg_t *msg, void *context);
typedef struct sbp_msg_callbacks_node {
  sbp_msg_type_t msg_type;
  int legacy;
  void *cb;
  void *context;
  struct sbp_msg_callbacks_node *next;
} sbp_msg_callbacks_node_t;
typedef struct {
  void *io_context;
  sbp_msg_callbacks_node_t *head;
  u8 buf[SBP_MAX_FRAME_LEN];
  u32 n;
} sbp_state_t;

void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t t, sbp_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *buff, u32 n, void *context));
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, s32 (*write)(u8 *buff, u32 n, void *context));
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t t, u16 sender_id, const sbp_msg_t *msg, sbp_write_fn_t write);
s8 sbp_message_encode(uint8_t *buf, uint8_t len, uint8_t *n_written, sbp_msg_type_t t, const sbp_msg_t *msg);
s8 sbp_message_decode(const uint8_t *buf, uint8_t len, uint8_t *n_read, sbp_msg_type_t t, sbp_msg_t *msg);
size_t shim_sbp_dump(char *buf, size_t cap, int t, const sbp_msg_t *msg);

/* strings */
void sbp_msg_log_text_init(sbp_msg_log_t *msg);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *buf, size_t len, bool should_trunc, size_t *n_written);
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc);
#ifdef __cplusplus
}
#endif
/* (legacy accessors used by the converters) */
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK 0x7u
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(f) ((u8)((f)&0x7u))
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID 0
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID 1
#endif
