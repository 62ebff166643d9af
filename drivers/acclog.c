/* Reads a lackey --trace-mem log on stdin, prints the accesses of each marked
 * call:  <call> <L|S|M> <region> <offset> <size>   with region
 * m(essage arena) c(ontext page) e(xtra result page) k (stack) o(ther) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
  char line[256];
  unsigned long long stack = 0;
  long call = -1;
  int in = 0, wantstack = 0;
  while (fgets(line, sizeof line, stdin)) {
    if (line[0] == 'I') continue;
    if (line[0] != ' ' || (line[1] != 'L' && line[1] != 'S' && line[1] != 'M')) continue;
    char *p;
    unsigned long long a = strtoull(line + 3, &p, 16);
    unsigned n = *p == ',' ? (unsigned)strtoul(p + 1, NULL, 10) : 0;
    if (a >= 0x10000000ull && a < 0x10001000ull && line[1] != 'L') {
      if (a == 0x10000000ull) { in = 1; ++call; printf("B %ld\n", call); }
      else if (a == 0x10000004ull) { in = 0; printf("E %ld\n", call); }
      else if (a == 0x10000008ull) wantstack = 1;
      else if (a == 0x1000000cull) wantstack = 0;
      continue;
    }
    if (wantstack) {
      if (line[1] == 'S') stack = a;
      continue;
    }
    if (!in) continue;
    char r = 'o';
    unsigned long long base = 0;
    if (a >= 0x20000000ull && a < 0x20004000ull) { r = 'm'; base = 0x20000000ull; }
    else if (a >= 0x30000000ull - 64 && a < 0x30001040ull) { r = 'c'; base = 0x30000000ull; }
    else if (a >= 0x31000000ull - 64 && a < 0x31001040ull) { r = 'e'; base = 0x31000000ull; }
    else if (a >= stack - (1 << 20) && a < stack + (1 << 16)) { r = 'k'; base = stack; }
    if (r == 'k' || (r == 'o' && line[1] == 'L')) continue;
    printf("%c %c %lld %u\n", line[1], r, (long long)(a - base), n);
  }
  return 0;
}
