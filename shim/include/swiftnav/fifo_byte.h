#ifndef SHIM_SWIFTNAV_FIFO_BYTE_H
#define SHIM_SWIFTNAV_FIFO_BYTE_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef u32 fifo_size_t;
typedef struct {
  u8 *buffer;
  fifo_size_t size;
  fifo_size_t read_index;
  fifo_size_t write_index;
} fifo_t;
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t size);
fifo_size_t fifo_length(const fifo_t *fifo);
fifo_size_t fifo_space(const fifo_t *fifo);
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_peek(const fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length);
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t length);
#ifdef __cplusplus
}
#endif
#endif
