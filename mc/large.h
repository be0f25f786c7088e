/* The long message of P11: a 2 MiB pattern repeated, and reference states at a few offsets
 * (computed by tools/gen_ref_large.c with mc/ref.c, computed again by the thorough tier). */
#ifndef MC_LARGE_H
#define MC_LARGE_H
#include "ref.h"
enum { LCK = 5, LUNIT = 1 << 21, LBACK = 1024, LKEY = 20 };
static const uint64_t lck_base[ LCK ] = { 1ULL << 29, 1ULL << 30, 1ULL << 31, 1ULL << 32, 1ULL << 33 };
static const uint8_t lkey[ LKEY ] = "key of twenty bytes";
static void lunit( uint8_t *u ) { for( uint64_t i = 0; i < LUNIT; i++ ) { uint64_t x = ( i + 5 ) * 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; u[ i ] = x >> 37; } }
static void lpad( int a, ref_t *r ) { uint8_t b[ 128 ]; for( size_t i = 0; i < ref_block[ a ]; i++ ) b[ i ] = 0x36 ^ ( i < LKEY ? lkey[ i ] : 0 ); ref_update( r, b, ref_block[ a ] ); }
#endif
