/* The search tree as its contract (C04) describes it: a multiset of elements;
   Search returns NULL or SOME stored element equal to the key, Delete removes
   exactly the element it is given, Enum visits each once.  Which of several
   equal elements is found, is up to bst_pick (nondeterministic). */
#ifndef BST_CONTRACT_H
#define BST_CONTRACT_H
#include "bst.h"
#ifndef BSTC_MAX
#define BSTC_MAX 4
#endif
static void *bstc_elem[BSTC_MAX];
static char bstc_live[BSTC_MAX];
static int bstc_deleted, bstc_bad_delete, bstc_added;
static unsigned bst_pick;
static const void *bstc_add(Bst *t, const void *d)
{
    int i;
    for( i = 0; i < BSTC_MAX; ++i )
        if( !bstc_live[i] && bstc_elem[i] != NULL )
        { memcpy(bstc_elem[i], d, t->ElementLength); bstc_live[i] = 1; bstc_added++; return bstc_elem[i]; }
    return NULL;
}
static const void *bstc_search(Bst *t, const void *k, const void *last)
{
    int i, n = 0, hit = -1;
    for( i = 0; i < BSTC_MAX; ++i )
        if( bstc_live[i] && t->Compare(k, bstc_elem[i]) == 0 )
        { if( hit < 0 || (bst_pick >> n & 1) ) hit = i; n++; }
    return hit < 0 ? NULL : bstc_elem[hit];
}
static void bstc_delete(Bst *t, const void *d)
{
    int i;
    bstc_deleted++;
    for( i = 0; i < BSTC_MAX; ++i )
        if( d == bstc_elem[i] && bstc_live[i] ){ bstc_live[i] = 0; return; }
    bstc_bad_delete = 1;
}
static void bstc_enum(Bst *t, Bst_Enum_Callback cb, void *arg)
{
    int i;
    for( i = 0; i < BSTC_MAX; ++i )
        if( bstc_live[i] && cb(t, bstc_elem[i], arg) != 0 ) return;
}
static void bstc_free(Bst *t){ }
int Bst_Init(Bst *t, int n, CompareFunc f)
{
    t->Compare = f; t->ElementLength = n;
    t->Add = bstc_add; t->Search = bstc_search; t->Delete = bstc_delete; t->Enum = bstc_enum; t->Free = bstc_free;
    return 0;
}
#endif
