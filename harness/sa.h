// Interface between the harnesses and the abstract interpreter.  Harnesses are
// compiled to LLVM IR and analysed; they are never linked or executed.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <random>
#include <utility>
#include <vector>
#include <iostream>
extern "C" {
// every bit of [p,p+n) becomes a fresh input symbol
void sa_bits(void *p, size_t n, const char *name);
uint64_t sa_word(const char *name, int width);
bool sa_bit(const char *name);
// value = neg ? -[lo,hi] : [lo,hi] of an n-byte signed integer (or float)
void sa_ivl(void *p, size_t n, int isfloat, bool neg, int64_t lo, int64_t hi);
void sa_stale(void *p, size_t n);
void *sa_alloc(size_t size, size_t align, const char *name);
void sa_readonly(const void *p, size_t n);
void sa_writable(const void *p);
void sa_track(const void *p);
uint64_t sa_havoc_written();
void sa_assume(bool c);
// obligations
void sa_eq(const void *p, const void *q, size_t n, const char *label);
void sa_true(bool c, const char *label);
void sa_reach(const char *label);
void sa_maxperiod(const void *before, const void *after, size_t nbytes, int nbits, const char *label);
bool sa_isconst(const void *p, size_t n);
void sa_note(const char *name, uint64_t v);
}
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void sa_check_##name()
#ifndef SA_TIER
#define SA_TIER 0
#endif
template <class T> static inline T sa_any(const char *name) { T t; sa_bits(&t, sizeof(T), name); return t; }
