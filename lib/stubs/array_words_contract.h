/* Growing arrays of pointer-aligned elements as their contract (C16) describes
   them; up to 4 arrays of up to 4 elements of up to 4 words each. */
#include "array.h"
#define AW_MAX 4
static void *aw[4][AW_MAX][4];
static int aw_arrays;
static void *aw_at(int k, int i)
{
    switch( k * AW_MAX + i ) {
    case 0: return aw[0][0]; case 1: return aw[0][1]; case 2: return aw[0][2]; case 3: return aw[0][3];
    case 4: return aw[1][0]; case 5: return aw[1][1]; case 6: return aw[1][2]; case 7: return aw[1][3];
    case 8: return aw[2][0]; case 9: return aw[2][1]; case 10: return aw[2][2]; case 11: return aw[2][3];
    case 12: return aw[3][0]; case 13: return aw[3][1]; case 14: return aw[3][2]; default: return aw[3][3];
    }
}
int Array_Init(Array *a, int len, int n, BOOL down, void *first)
{
    ASSUME(len <= 4 * sizeof(void *) && !down && aw_arrays < 4);
    a->Data = NULL; a->Used = 0; a->DataLength = len; a->Allocated = aw_arrays++;
    return 0;
}
void *Array_GetBySubscript(const Array *a, int i){ return i < 0 || i >= a->Used ? NULL : aw_at(a->Allocated, i); }
int Array_PushBack(Array *a, const void *d, void *b)
{
    ASSUME(a->Used < AW_MAX);
    if( d != NULL ) { int w; void **t = aw_at(a->Allocated, a->Used); for( w = 0; w < 4; ++w ) if( w * sizeof(void *) < a->DataLength ) t[w] = ((void *const *)d)[w]; }
    return a->Used++;
}
void Array_Free(Array *a){ a->Used = 0; }
