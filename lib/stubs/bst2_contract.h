/* Several search trees, each as its contract (C04) describes it (a multiset;
   Search returns NULL exactly when nothing stored equals the key, otherwise
   SOME stored equal element, picked nondeterministically).  The harness gives
   room for elements: BSTM_ROOM objects p0.. of type BSTM_T per tree. */
#ifndef BST2_CONTRACT_H
#define BST2_CONTRACT_H
#include "bst.h"
#ifndef BSTM_TREES
#define BSTM_TREES 2
#endif
#ifndef BSTM_ROOM
#define BSTM_ROOM 3
#endif
static BSTM_T bstm_a0, bstm_a1, bstm_a2, bstm_b0, bstm_b1, bstm_b2;
static BSTM_T *const bstm_elem[BSTM_TREES][3] = {{&bstm_a0, &bstm_a1, &bstm_a2}, {&bstm_b0, &bstm_b1, &bstm_b2}};
static int bstm_n[BSTM_TREES], bstm_trees;
static Bst *bstm_tree[BSTM_TREES];
static unsigned bstm_pick;
static int bstm_idx(Bst *t){ return t == bstm_tree[0] ? 0 : 1; }
static const void *bstm_add(Bst *t, const void *d)
{
    int k = bstm_idx(t), i = bstm_n[k]++;
    ASSUME(i < BSTM_ROOM);
    *bstm_elem[k][i] = *(const BSTM_T *)d;
    return bstm_elem[k][i];
}
static const void *bstm_search(Bst *t, const void *key, const void *last)
{
    int k = bstm_idx(t), i, n = 0, hit = -1;
    for( i = 0; i < BSTM_ROOM; ++i )
        if( i < bstm_n[k] && t->Compare(key, bstm_elem[k][i]) == 0 )
        { if( hit < 0 || (bstm_pick >> n & 1) ) hit = i; n++; }
    return hit < 0 ? NULL : bstm_elem[k][hit];
}
static void bstm_enum(Bst *t, Bst_Enum_Callback cb, void *arg)
{
    int k = bstm_idx(t), i;
    for( i = 0; i < BSTM_ROOM; ++i )
        if( i < bstm_n[k] && cb(t, bstm_elem[k][i], arg) != 0 ) return;
}
static void bstm_free(Bst *t){ bstm_n[bstm_idx(t)] = 0; }
int Bst_Init(Bst *t, int n, CompareFunc f)
{
    CHECK(n == sizeof(BSTM_T), "element size");
    ASSUME(bstm_trees < BSTM_TREES);
    bstm_tree[bstm_trees++] = t;
    t->Compare = f; t->ElementLength = n;
    t->Add = bstm_add; t->Search = bstm_search; t->Enum = bstm_enum; t->Free = bstm_free;
    return 0;
}
#endif
