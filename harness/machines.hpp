// The two emulated processors behind one interface.
#pragma once
#include <math.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <vector>
extern "C" {
#include "config.h"
#include "logger.h"
#include "event.h"
#include "device.h"
#include "xlat.h"
#include "conf.h"
#undef wait
#define wait cpu_wait_flag_
#include "cpu.h"
#undef wait
#include "model2030.h"
#undef R1
#undef R2
#undef R3
#undef W1
#undef LOCAL
#undef MAIN
#undef MPX
#include "model2050.h"
#undef R1
#undef R2
#undef R3
#undef W1
#undef CH
void setup_fp2030(void *) {}
void setup_fp2050(void *) {}
}
extern uint64_t step_count;
struct Machine {
  const char *name; uint32_t msize; uint32_t *store = nullptr; uint64_t cycles = 0;
  virtual ~Machine() {}
  void select() { M = store; mem_max = msize - 1; }
  virtual void create() = 0;
  virtual void reset() = 0;
  virtual uint32_t gpr(int r) = 0; virtual void gpr(int r, uint32_t v) = 0;
  virtual uint64_t fpr(int r) = 0; virtual void fpr(int r, uint64_t v) = 0;       // r 0..3
  virtual uint8_t byte(uint32_t a) = 0; virtual void byte(uint32_t a, uint8_t v) = 0;
  virtual bool parity_ok(uint32_t) { return true; }
  virtual uint8_t key(int blk) = 0; virtual void key(int blk, uint8_t v) = 0;
  virtual void start(uint32_t ia) = 0;       // begin executing at ia, in supervisor state
  virtual void cycle() = 0;
  virtual bool waiting() = 0;
  virtual int cpw() = 0;                      // bytes per stored word
  bool run(uint64_t cap) { uint64_t n = 0; while (n < cap) { cycle(); n++; if (waiting()) { cycles += n; return true; } } cycles += n; return false; }
  uint32_t word(uint32_t a) { return (uint32_t)byte(a) << 24 | byte(a + 1) << 16 | byte(a + 2) << 8 | byte(a + 3); }
};
struct M30 : Machine {
  M30() { name = "2030"; msize = 65536; }
  void create() override {
    char line[] = "2030F/1"; title = NULL; load_line(line); store = M; msize = mem_max + 1; model2030_init(NULL, 0); }
  void reset() override {
    select(); SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; START = 0; STOP = 0; LOAD = 0; INTR = 0; timer_event = 0; INT_TMR = 1;
    for (int i = 0; i < 4096; i++) cpu_2030.LS[i] = 0x100;
    for (int i = 0; i < 200000; i++) { cycle_2030(); step_count++; if (cpu_2030.WX == 0x328) break; }
  }
  static uint16_t par(uint8_t v) { return v | odd_parity[v]; }
  uint32_t gpr(int r) override { uint16_t *p = cpu_2030.LS + 0x700 + (r << 4); return (p[0] & 255u) << 24 | (p[1] & 255) << 16 | (p[2] & 255) << 8 | (p[3] & 255); }
  void gpr(int r, uint32_t v) override { uint16_t *p = cpu_2030.LS + 0x700 + (r << 4); for (int i = 0; i < 4; i++) p[i] = par(v >> (24 - 8 * i)); }
  uint64_t fpr(int r) override { uint16_t *p = cpu_2030.LS + 0x708 + (r << 5); uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (p[i] & 255); return v; }
  void fpr(int r, uint64_t v) override { uint16_t *p = cpu_2030.LS + 0x708 + (r << 5); for (int i = 0; i < 8; i++) p[i] = par(v >> (56 - 8 * i)); }
  uint8_t byte(uint32_t a) override { return store[a]; }
  void byte(uint32_t a, uint8_t v) override { store[a] = par(v); }
  bool parity_ok(uint32_t a) override { return (store[a] & 0x1ff) == par(store[a]) ; }
  uint8_t key(int b) override { return cpu_2030.MP[0xe0 | b] & 15; }
  void key(int b, uint8_t v) override { cpu_2030.MP[0xe0 | b] = v; }
  void start(uint32_t ia) override {
    cpu_2030.LS[0x7AA] = par(ia); cpu_2030.LS[0x7A9] = par(ia >> 8); cpu_2030.LS[0x7BB] = 0x100; cpu_2030.LS[0x7b8] = 0x100; cpu_2030.MASK = 0;
    cpu_2030.LS[0x7b9] = 0x100; cpu_2030.ASCII = 0; cpu_2030.Q_REG &= 0x0f; cpu_2030.Q_REG |= odd_parity[cpu_2030.Q_REG & 0xff];
    cpu_2030.WX = 0x102; START = 1; cpu_2030.I_REG = par(ia >> 8); cpu_2030.J_REG = par(ia);
  }
  void cycle() override { cycle_2030(); step_count++; }
  bool waiting() override { return cpu_2030.WX == 0x0AE && cpu_2030.wait; }
  int cpw() override { return 1; }
};
struct M50 : Machine {
  M50() { name = "2050"; msize = 524288; }
  void create() override { char line[] = "2050I"; title = NULL; load_line(line); store = M; msize = mem_max + 1; model2050_init(NULL, 0); }
  void reset() override {
    select(); SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; START = 0; STOP = 0; LOAD = 0; INTR = 0; timer_event = 0; INT_TMR = 1;
    for (int i = 0; i < 64; i++) cpu_2050.LS[i] = 0;
    for (int i = 0; i < 200000; i++) { cycle_2050(); step_count++; if (cpu_2050.ROAR == 0x150) break; }
  }
  uint32_t gpr(int r) override { return cpu_2050.LS[0x30 + r]; }
  void gpr(int r, uint32_t v) override { cpu_2050.LS[0x30 + r] = v; }
  uint64_t fpr(int r) override { return (uint64_t)cpu_2050.LS[0x20 + 2 * r] << 32 | cpu_2050.LS[0x21 + 2 * r]; }
  void fpr(int r, uint64_t v) override { cpu_2050.LS[0x20 + 2 * r] = v >> 32; cpu_2050.LS[0x21 + 2 * r] = v; }
  uint8_t byte(uint32_t a) override { return store[a >> 2] >> (8 * (3 - (a & 3))); }
  void byte(uint32_t a, uint8_t v) override { int s = 8 * (3 - (a & 3)); store[a >> 2] = (store[a >> 2] & ~(255u << s)) | (uint32_t)v << s; }
  uint8_t key(int b) override { return cpu_2050.MP[b]; }
  void key(int b, uint8_t v) override { cpu_2050.MP[b] = v; }
  void start(uint32_t ia) override {
    cpu_2050.LS[0x17] = 0; cpu_2050.MASK = 0; cpu_2050.AMWP = 0; cpu_2050.KEY = 0; cpu_2050.PMASK = 0; cpu_2050.CC = 0;
    cpu_2050.IA_REG = ia; START = 1; cpu_2050.ROAR = 0x190; cpu_2050.REFETCH = 1; cpu_2050.mem_state = 0;
  }
  void cycle() override { cycle_2050(); step_count++; }
  bool waiting() override { return cpu_2050.ROAR == 0x150 && cpu_2050.wait; }
  int cpw() override { return 4; }
};
