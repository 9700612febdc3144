/*UNIT
{"kind":"bounded",
 "bound":"one operation on every valid tree of at most N=5 nodes (any shape, any order-consistent 8-bit keys, duplicates included), any free list",
 "functions":["Bst_Add","Bst_Search","Bst_Delete","Bst_Minimum","Bst_Successor","InsertNode","GetUnusedNode"],
 "link":["stablebuffer.c","array.c","utils.c"],
 "defines":["N=5"],"cbmc":["--unwind","8"],
 "variants":[{"name":"add","defines":["OP=0"]},{"name":"search","defines":["OP=1"]},{"name":"delete","defines":["OP=2"]},{"name":"walk","defines":["OP=3"]},{"name":"fresh","defines":["OP=4"]}],
 "thorough":{"defines":["NT=6"],"cbmc":["--unwind","9"],"timeout":3000},
 "cost":60, "timeout":400}
*/
#include "vp.h"
#include <string.h>
#include "common.h"
#include "bst.c"
#ifdef NT
#undef N
#define N NT
#endif
/* A valid tree: node i>0 hangs under an earlier node p[i] on side s[i].  The
   start state is one that a history of Add / Delete can leave behind: links
   mutual, left subtrees <= node <= right subtrees. */
typedef struct { unsigned char n, p[N + 1], s[N + 1], has_free; signed char key[N + 1]; signed char k; unsigned char j; } IN;
VP_INPUTS(IN)

typedef struct { int key, id; } Elem;
typedef struct { Bst_NodeHead h; Elem e; } Node;
static Node n0, n1, n2, n3, n4, n5, n6, freed;
static Node *const pool[7] = {&n0, &n1, &n2, &n3, &n4, &n5, &n6};
static Bst t;
static char live[N + 1];

static int cmp_elem(const void *a, const void *b)
{
    int x = ((const Elem *)a)->key, y = ((const Elem *)b)->key;
    return x < y ? -1 : x > y ? 1 : 0;
}
static int idx(const Bst_NodeHead *h){ return ((const Node *)h)->e.id; }
static void build(void)
{
    int i;
    int lo[N], hi[N]; char haslo[N], hashi[N];
    ASSUME(in.n <= N);
    ASSUME(Bst_Init(&t, sizeof(Elem), cmp_elem) == 0);
    for( i = 0; i < N; ++i )
    {
        Node *x = pool[i];
        x->h.Parent = x->h.Left = x->h.Right = NULL;
        x->e.key = in.key[i];
        x->e.id = i;
        live[i] = i < in.n;
        if( i >= in.n ) continue;
        if( i == 0 ){ t.Root = &x->h; haslo[0] = hashi[0] = 0; lo[0] = hi[0] = 0; }
        else {
            int p = in.p[i];
            ASSUME(p < i && in.s[i] < 2);
            haslo[i] = haslo[p]; hashi[i] = hashi[p]; lo[i] = lo[p]; hi[i] = hi[p];
            x->h.Parent = &pool[p]->h;
            if( in.s[i] == 0 ){ ASSUME(pool[p]->h.Left == NULL); pool[p]->h.Left = &x->h; hashi[i] = 1; hi[i] = in.key[p]; }
            else { ASSUME(pool[p]->h.Right == NULL); pool[p]->h.Right = &x->h; haslo[i] = 1; lo[i] = in.key[p]; }
            ASSUME(!haslo[i] || in.key[i] >= lo[i]);
            ASSUME(!hashi[i] || in.key[i] <= hi[i]);
        }
    }
    live[N] = 0;
    pool[N]->e.id = N;
    if( in.has_free ){ pool[N]->h.Right = &freed.h; t.FreeList = &pool[N]->h; }
}
/* the representation invariant, over exactly the nodes marked live */
static void check_tree(void)
{
    int i, d, total = 0;
    for( i = 0; i <= N; ++i ) if( live[i] ) total++;
    CHECK((t.Root == NULL) == (total == 0), "root is empty exactly when the tree is");
    if( t.Root != NULL ) CHECK(live[idx(t.Root)] && t.Root->Parent == NULL, "root is a stored node without parent");
    for( i = 0; i <= N; ++i )
    {
        Bst_NodeHead *h = &pool[i]->h;
        if( !live[i] ) continue;
        if( h->Left != NULL ) CHECK(live[idx(h->Left)] && h->Left->Parent == h, "left link is mutual");
        if( h->Right != NULL ) CHECK(live[idx(h->Right)] && h->Right->Parent == h, "right link is mutual");
        CHECK(h->Left == NULL || h->Left != h->Right, "children are distinct");
        for( d = 0; d <= N && h->Parent != NULL; ++d )
        {
            Bst_NodeHead *q = h->Parent;
            CHECK(live[idx(q)], "parent is a stored node");
            CHECK(q->Left == h || q->Right == h, "parent links back");
            if( q->Left == h ) CHECK(pool[i]->e.key <= ((Node *)q)->e.key, "left subtree is not greater");
            else CHECK(pool[i]->e.key >= ((Node *)q)->e.key, "right subtree is not less");
            h = q;
        }
        CHECK(h == t.Root, "every stored node is reachable from the root");
    }
}
static int stored(int k){ int i; for( i = 0; i <= N; ++i ) if( live[i] && pool[i]->e.key == k ) return 1; return 0; }

void harness(void)
{
    int i, old[N + 1];
    Elem e;
    VP_LOAD();
    build();
    for( i = 0; i <= N; ++i ) old[i] = pool[i]->e.key;
    e.key = in.k; e.id = N;
#if OP == 0
    {
        const void *r;
        ASSUME(in.has_free);
        r = t.Add(&t, &e);
        CHECK(r == (const void *)&pool[N]->e, "the new element takes the free node");
        CHECK(pool[N]->e.key == in.k && pool[N]->e.id == N, "the element is stored unchanged");
        CHECK(t.FreeList == &freed.h, "the node is off the free list");
        live[N] = 1;
        old[N] = in.k;
        check_tree();
        for( i = 0; i <= N; ++i ) CHECK(pool[i]->e.key == old[i] || !live[i], "no other element is changed");
    }
#elif OP == 1
    {
        const Elem *r = t.Search(&t, &e, NULL);
        CHECK((r != NULL) == stored(in.k), "search finds a key exactly when it is stored");
        if( r != NULL ) CHECK(live[r->id] && r->key == in.k, "search returns a stored element with the key");
    }
#elif OP == 2
    {
        Bst_NodeHead *f = t.FreeList;
        ASSUME(in.j < in.n);
        t.Delete(&t, &pool[in.j]->e);
        live[in.j] = 0;
        CHECK(t.FreeList == &pool[in.j]->h && t.FreeList->Right == f, "the removed node, and only it, goes to the free list");
        check_tree();
        for( i = 0; i <= N; ++i ) CHECK(pool[i]->e.key == old[i], "no element is changed");
    }
#elif OP == 3
    {
        const Elem *p = t.Minimum(&t, NULL);
        int cnt = 0, vis[N + 1] = {0}, last = 0;
        CHECK((p == NULL) == (in.n == 0), "minimum exists unless the tree is empty");
        for( i = 0; i <= N && p != NULL; ++i )
        {
            CHECK(live[p->id] && !vis[p->id], "the walk visits stored elements, none twice");
            vis[p->id] = 1;
            CHECK(cnt == 0 || p->key >= last, "the walk is in order");
            last = p->key;
            cnt++;
            p = t.Successor(&t, p);
        }
        CHECK(p == NULL && cnt == in.n, "the walk visits every stored element");
    }
#else
    {
        /* no free node: the element comes from newly allocated memory */
        const Elem *r;
        ASSUME(!in.has_free && in.n <= 1);
        r = t.Add(&t, &e);
        CHECK(r != NULL && r->key == in.k, "the element is stored unchanged");
        const Elem *q = t.Search(&t, &e, NULL);
        CHECK(q != NULL && q->key == in.k, "the new element is found");
        const Bst_NodeHead *h = (const Bst_NodeHead *)r - 1;
        CHECK(h->Left == NULL && h->Right == NULL, "it is a leaf");
        CHECK(in.n == 0 ? (t.Root == h && h->Parent == NULL) : (h->Parent != NULL && (h->Parent->Left == h || h->Parent->Right == h)), "it is linked in");
    }
#endif
    REACH("end");
}
