/* A dynamic array of pointers as its contract (C16) describes it (one array,
   at most 4 elements).  Each slot is an object of its own: the verifier keeps
   those apart far more cheaply than offsets into one array. */
#ifndef ARRAY_PTR_CONTRACT_H
#define ARRAY_PTR_CONTRACT_H
#include "array.h"
static void *apc_s0, *apc_s1, *apc_s2, *apc_s3;
static void **apc_slot(int i){ return i == 0 ? &apc_s0 : i == 1 ? &apc_s1 : i == 2 ? &apc_s2 : &apc_s3; }
static int apc_n;
int Array_Init(Array *a, int len, int n, BOOL down, void *first)
{
    CHECK(len == sizeof(void *) && !down && apc_n++ == 0, "one array of pointers");
    a->Data = NULL; a->Used = 0; a->Allocated = 4; a->DataLength = len;
    return 0;
}
void *Array_GetBySubscript(const Array *a, int i){ return i >= 0 && i < a->Used ? (void *)apc_slot(i) : NULL; }
int Array_PushBack(Array *a, const void *d, void *b)
{
    ASSUME(a->Used < 4);
    *apc_slot(a->Used) = *(void *const *)d;
    return a->Used++;
}
void Array_Free(Array *a){ a->Used = 0; a->Data = NULL; a->Allocated = 0; }
#endif
