#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <libhmac.h>
static void hex(const char *s, uint8_t *b) { unsigned v; while (*s) { sscanf(s, "%2x", &v); *b++ = v; s += 2; } }
static int is(const char *s, const uint8_t *b) { uint8_t e[64]; hex(s, e); return memcmp(e, b, strlen(s) / 2) == 0; }
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
