/*UNIT
{"kind":"proof","functions":["Contain","IpChunk_Init","IpAddr_From4","IpAddr_From6","IpAddr_BitLength","IpAddr_HasZone"],
 "link":["ipchunk.c"],"havoc":["Bst_Init","StableBuffer_Init","IPv4AddressToNum","IPv6AddressToNum","atoi"],
 "cbmc":["--unwind","18"],"cost":10,"timeout":300,
 "trusted":["Bst_Init is a stand-in that records the comparison function it is given"]}
*/
/* The order address blocks are kept in is a total preorder: the search tree's
   contract (C04) rests on it.  All addresses, all prefix lengths. */
#include "vp.h"
#include <string.h>
#include "ipchunk.h"
typedef struct { unsigned char a[3][16]; _Bool v6[3]; int bits[3]; } IN;
VP_INPUTS(IN)
static int ntree;
static CompareFunc cmp[2];
int Bst_Init(Bst *t, int n, CompareFunc f){ t->Compare = f; t->ElementLength = n; if( ntree < 2 ) cmp[ntree] = f; ntree++; return 0; }
int StableBuffer_Init(StableBuffer *s){ return 0; }
int IPv4AddressToNum(const char *asc, void *b){ return -1; }
int IPv6AddressToNum(const char *asc, void *b){ return -1; }
static IpElement e0, e1, e2;
static void set(IpElement *e, int i)
{
    if( in.v6[i] ) IpAddr_From6(in.a[i], &e->IpSet.Ip); else IpAddr_From4(in.a[i], &e->IpSet.Ip);
    ASSUME(in.bits[i] >= 0 && in.bits[i] <= (in.v6[i] ? 128 : 32));
    e->IpSet.PrefixBits = in.bits[i];
}
void harness(void)
{
    IpChunk ic;
    int k;
    VP_LOAD();
    CHECK(IpChunk_Init(&ic) == 0 && ntree >= 1, "init");
    set(&e0, 0); set(&e1, 1); set(&e2, 2);
    for( k = 0; k < ntree && k < 2; ++k )
    {
        /* the first tree holds single addresses only */
        int ab = cmp[k](&e0, &e1), ba = cmp[k](&e1, &e0), bc = cmp[k](&e1, &e2), ac = cmp[k](&e0, &e2);
        CHECK((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "the order is antisymmetric");
        CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "the order is transitive");
    }
    REACH("end");
}
