/* Growing arrays as their contract (C16) describes them: two arrays, told
   apart by the size of their elements, each in typed storage of its own. */
#include "array.h"
#define AH_SLOTS 32
#ifndef AH_NODES
#define AH_NODES 48
#endif
static int ah_slots[AH_SLOTS];
static AH_NODE ah_nodes[AH_NODES];
int Array_Init(Array *a, int len, int n, BOOL down, void *first)
{
    CHECK((len == sizeof(int) || len == sizeof(AH_NODE)) && !down, "arrays of slots and of nodes");
    a->Data = len == sizeof(int) ? (char *)ah_slots : (char *)ah_nodes;
    a->Used = 0; a->Allocated = n; a->DataLength = len;
    return 0;
}
void *Array_GetBySubscript(const Array *a, int i)
{
    if( i < 0 || i >= a->Used ) return NULL;
    return a->DataLength == sizeof(int) ? (void *)&ah_slots[i] : (void *)&ah_nodes[i];
}
int Array_PushBack(Array *a, const void *d, void *b)
{
    if( a->DataLength == sizeof(int) )
    { ASSUME(a->Used < AH_SLOTS); if( d != NULL ) ah_slots[a->Used] = *(const int *)d; }
    else
    { ASSUME(a->Used < AH_NODES); if( d != NULL ) ah_nodes[a->Used] = *(const AH_NODE *)d; }
    return a->Used++;
}
void Array_Free(Array *a){ a->Used = 0; }
