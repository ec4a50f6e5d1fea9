/* Bit fields: one operation on an arbitrary field with an arbitrary bit number. args: [0] field length in bytes; 0: bit_test on every bit of a 16 KiB field. */
#include <lib/bit.h>
#include "vp.h"
static int old(unsigned char *f, int i) { return (f[i / 8] >> (i % 8)) & 1; }
static void big(void) {
  static unsigned char f[16384]; unsigned char x = (unsigned char)vp_range("byte", 0, 255); memset(f, 0, sizeof f);
  for (size_t b = 0; b < sizeof f * 8; b++) {
    if (b % 8 == 0) { f[b / 8] = x; if (b) f[b / 8 - 1] = (unsigned char)~x; } /* every other byte differs */
    vp_assert(bit_test(f, b, sizeof f) == ((x >> (b % 8)) & 1), "test reads the named bit");
  }
  vp_cover("end");
}
void vp_main(void) {
  if (!vp_arg(0)) { big(); return; }
  unsigned char f[32 + 2], o[32 + 2]; int len = (int)vp_arg(0); vp_bytes(f, len + 1, "field"); memcpy(o, f, len + 1);
  int b = (int)vp_concretize((uint64_t)vp_range("bit", 0, len * 8 - 1));
  int op = vp_choose("op", 4); int want;
  vp_assert(bit_test(f, b, len) == old(o, b), "test reads the named bit");
  if (op == 0) { want = 1; bit_set(f, b, len); } else if (op == 1) { want = 0; bit_clear(f, b, len); } else if (op == 2) { want = !old(o, b); bit_toggle(f, b, len); } else want = old(o, b);
  for (int i = 0; i < (len + 1) * 8; i++) vp_assert(old(f, i) == (i == b ? want : old(o, i)), "only the named bit changes, to the right value");
  vp_assert(bit_test(f, b, len) == want, "test reads back the bit"); vp_cover("end");
}
