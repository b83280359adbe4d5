#pragma once
#include <stdint.h>
struct sdev {
    device_state_t state; int selected; int sense[8]; int cmd; int cmd_done; int chaining; int busy; int status; int data; int data_rdy; int data_end; int data_end_post;
    int data_cnt; int disconnect; int delay; uint8_t buffer[8192]; int max_data; int burst; int burst_cnt; int burst_max; int sms;
    int split; int period; int de_delay; int end_status; int reject; int stopped; void *owner; int cmd_no; int halted; int polled;
};
void sdev_step(struct _device *unit);
void sdev_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *bus_in);
void sdev_accepted(struct sdev *ctx, int status);
void sdev_command(struct sdev *ctx);
void sdev_got(struct sdev *ctx, int byte);
