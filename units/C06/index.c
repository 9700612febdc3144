/*UNIT
{"kind":"bounded","bound":"index of 2 chains and up to 4 chunks, in every consistent state (every chaining, every set and grouping of free chunks), one operation from each: the consistency found is the consistency left, so it holds over all histories within that size",
 "functions":["CacheHT_FindUnusedNode","CacheHT_CreateNewNode","CacheHT_InsertToSlot","CacheHT_RemoveFromSlot","CacheHT_FindPredecessor","CacheHT_AddTo2DList","CacheHT_Get"],
 "link":["cacheht.c"],"havoc":["Array_GetBySubscript","Array_PushBack","Array_Free","Log_Print","Log_DebugOn","BKDRHash"],
 "variants":[{"name":"find","defines":["OP=0"]},{"name":"insert","defines":["OP=1"]},{"name":"remove","defines":["OP=2"]},{"name":"get","defines":["OP=3"]}],
 "cbmc":["--unwind","6"],"cost":10,"timeout":250,
 "trusted":["assumed contract: Array (C16)","the hash is a function of the key","time"]}
*/
/* The cache index: chains of records and a store of free chunks, over one
   array of nodes.  Every chunk is in exactly one place. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include "cacheht.h"
#define N 4
typedef struct {
    int used, head[2], freelist; int next[N], slot[N], keynext[N], valnext[N]; _Bool isfree[N]; int count[N]; long added[N]; unsigned len[N]; int off[N]; unsigned ttl[N];
    unsigned want; int idx; unsigned hash; _Bool full; long now; _Bool givehash;
} IN;
VP_INPUTS(IN)
static int32_t slot0, slot1;
static Cht_Node node0, node1, node2, node3;
static CacheHT h;
static char limit;
static Cht_Node *nd(int i){ return i == 0 ? &node0 : i == 1 ? &node1 : i == 2 ? &node2 : &node3; }
void *Array_GetBySubscript(const Array *a, int i)
{
    CHECK(a == &h.Slots || a == &h.NodeChunk, "an array of the index");
    if( i < 0 || i >= a->Used ) return NULL;
    if( a == &h.Slots ) return i == 0 ? (void *)&slot0 : (void *)&slot1;
    return nd(i);
}
int Array_PushBack(Array *a, const void *d, void *b)
{
    CHECK(a == &h.NodeChunk && d == NULL && b == (void *)&limit, "a new node, limited by where the records end");
    if( in.full || a->Used >= N ) return -1;
    return a->Used++;
}
void Array_Free(Array *a){ }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
time_t time(time_t *t){ return in.now; }
static const char key[] = "k";
unsigned int BKDRHash(const char *s, unsigned int b){ CHECK(s == key && b == 0, "the hash of the key"); return in.hash; }
/* where each node is: 0, 1: in that chain; 2: free; -1: nowhere.  ok = no node twice, all lists end */
static int ok;
static void place(int *w)
{
    int i, k, c, n; int seen[N]; unsigned hl[N]; int nh = 0;
    ok = 1;
    for( i = 0; i < N; ++i ) { w[i] = -1; seen[i] = 0; }
    for( c = 0; c < 2; ++c )
    {
        n = c == 0 ? slot0 : slot1;
        for( k = 0; k < N && n != -1 && ok; ++k )
        {
            if( n < 0 || n >= h.NodeChunk.Used || w[n] != -1 ) { ok = 0; break; }
            w[n] = c; if( nd(n)->Slot != c ) ok = 0;
            n = nd(n)->Next;
        }
        if( n != -1 ) ok = 0;
    }
    n = h.Free2DList;
    for( k = 0; k < N && n != -1 && ok; ++k )
    {
        int v, j;
        if( n < 0 || n >= h.NodeChunk.Used || w[n] != -1 ) { ok = 0; break; }
        for( j = 0; j < nh; ++j ) if( hl[j] == nd(n)->Length ) ok = 0;      /* one group per length */
        hl[nh++] = nd(n)->Length;
        w[n] = 2;
        v = ((Cht_2DList *)nd(n))->ValNext;
        for( j = 0; j < N && v != -1 && ok; ++j )
        {
            if( v < 0 || v >= h.NodeChunk.Used || w[v] != -1 || nd(v)->Length != nd(n)->Length ) { ok = 0; break; }
            w[v] = 2;
            v = ((Cht_2DList *)nd(v))->ValNext;
        }
        if( v != -1 ) ok = 0;
        n = ((Cht_2DList *)nd(n))->KeyNext;
    }
    if( n != -1 ) ok = 0;
}
void harness(void)
{
    int i, w0[N], w1[N], u0, loose = 0; Cht_Node *out = NULL; BOOL isnew; int32_t r; uint32_t hv; int s0, s1;
    VP_LOAD();
    u0 = in.used; ASSUME(u0 >= 0 && u0 <= N && in.now >= 0 && in.now < (1L << 40));
    h.Slots.Used = h.Slots.Allocated = 2; h.NodeChunk.Used = u0; h.NodeChunk.Allocated = -1; h.Free2DList = in.freelist;
    slot0 = in.head[0]; slot1 = in.head[1];
    for( i = 0; i < N; ++i )
    {
        Cht_Node *n = nd(i);
        ASSUME(in.added[i] >= 0 && in.added[i] <= in.now && in.count[i] >= 0 && in.count[i] < 1000000);
        n->Length = in.len[i]; n->Offset = in.off[i]; n->TTL = in.ttl[i]; n->TimeAdded = in.added[i];
        if( in.isfree[i] ) { ((Cht_2DList *)n)->KeyNext = in.keynext[i]; ((Cht_2DList *)n)->ValNext = in.valnext[i]; ((Cht_2DList *)n)->Count = in.count[i]; }
        else { n->Slot = in.slot[i]; n->Next = in.next[i]; }
    }
    place(w0); ASSUME(ok);
    for( i = 0; i < N; ++i ) if( i < u0 && w0[i] == -1 ) loose++;
    s0 = slot0; s1 = slot1; hv = in.hash;
#if OP == 0
    ASSUME(loose == 0);
    r = CacheHT_FindUnusedNode(&h, in.want, &out, &limit, &isnew);
    place(w1); CHECK(ok, "the index stays consistent");
    if( r >= 0 )
    {
        int any = 0;
        CHECK(r < h.NodeChunk.Used && out == nd(r), "the chunk handed out is one of the index");
        CHECK(w1[r] == -1, "and is in use from now on");
        CHECK(out->Length == in.want, "it has the size asked for");
        for( i = 0; i < N; ++i )
        {
            if( i < u0 && w0[i] == 2 && in.len[i] == in.want ) any = 1;
            if( i < u0 && i != r ) { CHECK(w1[i] == w0[i], "every other chunk stays where it was"); CHECK(nd(i)->TTL == in.ttl[i], "as it was"); }
            if( i < u0 ) CHECK(nd(i)->Length == in.len[i] && nd(i)->Offset == in.off[i], "the place and size of a chunk never change");
        }
        if( any )
        {
            CHECK(!isnew && w0[r] == 2 && h.NodeChunk.Used == u0, "a free chunk of that size is used again");
            REACH("reused");
        } else {
            CHECK(isnew == TRUE && r == u0 && h.NodeChunk.Used == u0 + 1, "otherwise a chunk is added");
            REACH("new");
        }
    } else {
        CHECK((in.full || u0 == N) && h.NodeChunk.Used == u0, "there is no chunk only when the cache is full");
        for( i = 0; i < N; ++i ) if( i < u0 ) { CHECK(w1[i] == w0[i], "nothing moves then"); CHECK(!(w0[i] == 2 && in.len[i] == in.want), "and no free chunk fits"); }
        REACH("full");
    }
#elif OP == 1
    ASSUME(in.idx >= 0 && in.idx < u0 && w0[in.idx] == -1 && loose == 1);
    r = CacheHT_InsertToSlot(&h, key, in.idx, nd(in.idx), in.givehash ? &hv : NULL);
    place(w1); CHECK(ok && r == 0, "the index stays consistent");
    for( i = 0; i < N; ++i ) if( i < u0 )
    {
        CHECK(w1[i] == (i == in.idx ? (int)(in.hash % 2) : w0[i]), "the record is in the chain of its hash, the others where they were");
        CHECK(nd(i)->Length == in.len[i] && nd(i)->Offset == in.off[i] && nd(i)->TTL == in.ttl[i] && nd(i)->TimeAdded == in.added[i], "as they were");
    }
    CHECK(h.NodeChunk.Used == u0 && h.Free2DList == in.freelist, "nothing else");
    REACH("inserted");
#elif OP == 2
    ASSUME(in.idx >= 0 && in.idx < u0 && (w0[in.idx] == 0 || w0[in.idx] == 1) && loose == 0);
    r = CacheHT_RemoveFromSlot(&h, in.idx, nd(in.idx));
    place(w1); CHECK(ok && r == 0, "the index stays consistent");
    if( in.idx == u0 - 1 )
    {
        CHECK(h.NodeChunk.Used == u0 - 1, "the last chunk is given up"); REACH("last");
    } else {
        CHECK(h.NodeChunk.Used == u0 && w1[in.idx] == 2, "any other becomes free"); REACH("freed");
    }
    for( i = 0; i < N; ++i ) if( i < u0 )
    {
        if( i != in.idx ) { CHECK(w1[i] == w0[i], "every other record stays where it was"); CHECK(nd(i)->TTL == in.ttl[i] && nd(i)->TimeAdded == in.added[i], "as it was"); }
        CHECK(nd(i)->Length == in.len[i] && nd(i)->Offset == in.off[i], "the place and size of a chunk never change");
    }
#else
    ASSUME(loose == 0);
    {
        int got[N], k; Cht_Node *p = NULL;
        for( i = 0; i < N; ++i ) got[i] = 0;
        for( k = 0; k <= N; ++k )
        {
            p = CacheHT_Get(&h, key, p, in.givehash ? &hv : NULL);
            if( p == NULL ) break;
            CHECK(p == &node0 || p == &node1 || p == &node2 || p == &node3, "a record");
            got[p == &node0 ? 0 : p == &node1 ? 1 : p == &node2 ? 2 : 3]++;
        }
        CHECK(p == NULL, "the enumeration ends");
        for( i = 0; i < N; ++i ) CHECK(got[i] == (i < u0 && w0[i] == (int)(in.hash % 2)), "exactly the records of that hash, each once");
        place(w1); CHECK(ok && slot0 == s0 && slot1 == s1, "looking changes nothing");
        REACH("looked");
    }
#endif
}
