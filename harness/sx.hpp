// Interface between harnesses and (a) the symbolic executor, (b) the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  int8_t   sx_i8 (const char* name);
  int16_t  sx_i16(const char* name);
  int32_t  sx_i32(const char* name);
  int64_t  sx_i64(const char* name);
  double   sx_f64(const char* name);
  int64_t  sx_rng(const char* name, unsigned bits, int64_t lo, int64_t hi); // signed value of that many bits in [lo,hi]
  bool     sx_bool(const char* name);
  unsigned sx_choose(unsigned n);          // forks n ways: 0..n-1
  void     sx_assume(bool);
  void     sx_check(bool, const char* msg);
  void     sx_observe(uint64_t);
  void     sx_noleak();                    // from here on: heap must be back to its initial level at the end
}
#ifdef SX_NATIVE
struct sx_Reg { const char* name; void (*f)(); sx_Reg* next; static sx_Reg*& head(){ static sx_Reg* h=nullptr; return h; }
  sx_Reg(const char* n, void(*g)()):name(n),f(g),next(head()){ head()=this; } };
#define HARNESS_REG(name) static sx_Reg sx_reg_##name(#name, &h_##name);
#else
#define HARNESS_REG(name)
#endif
#define HARNESS(name) extern "C" void h_##name(); HARNESS_REG(name) extern "C" void h_##name()
#ifndef SX_NOINLINE
#define SX_NOINLINE __attribute__((noinline))
#endif
