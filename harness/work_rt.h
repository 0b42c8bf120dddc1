// Included into every translation unit of the 'work' flavour: counts executed
// basic blocks (compiler instrumentation, -fsanitize-coverage=trace-pc) and
// bytes moved, so that cost is measured exactly and repeatably.
#ifndef VERIF_WORK_RT_H
#define VERIF_WORK_RT_H
#include <fcntl.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
extern "C" {
__attribute__((weak)) __thread unsigned long long verif_blocks = 0;
__attribute__((weak)) __thread unsigned long long verif_moved = 0;
__attribute__((weak, noinline, no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++verif_blocks; }
__attribute__((weak, noinline, no_sanitize_coverage)) void* memcpy(void* d, const void* s, size_t n) noexcept {
  verif_moved += n;
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
__attribute__((weak, noinline, no_sanitize_coverage)) void* memmove(void* d, const void* s, size_t n) noexcept {
  verif_moved += n;
  void* r = d;
  if (d <= s || static_cast<const char*>(s) + n <= d) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    d = static_cast<char*>(d) + n - 1;
    s = static_cast<const char*>(s) + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  }
  return r;
}
// Programs report their total when they end.
__attribute__((weak, destructor, no_sanitize_coverage)) void verif_work_report() {
  const char* p = getenv("VERIF_WORK_OUT");
  if (!p) return;
  FILE* f = fopen(p, "w");
  if (!f) return;
  fprintf(f, "%llu\n", verif_blocks + verif_moved / 16);
  fclose(f);
}
}
#endif
