/*UNIT
{"kind":"bounded","bound":"one insertion into, and full look-up in, a table with up to 3 earlier entries of hash values below 128 or from 2^31 to 2^31+127, starting empty, or (load factor 1) with 5 entries of fixed hashes, so that it grows at any of the insertions, or with 13 (so that it grows a second time; one earlier entry)",
 "functions":["SimpleHT_Init","SimpleHT_Add","SimpleHT_Expand","SimpleHT_AddToSlot","SimpleHT_Find","SimpleHT_Enum"],
 "link":["simpleht.c"],"cbmc":["--unwind","50","--object-bits","11"],"cost":30,"timeout":300,
 "variants":[{"name":"small","defines":["FILL=0","LOAD=5"]},{"name":"grow","defines":["FILL=5","LOAD=1"]},{"name":"regrow","defines":["FILL=13","LOAD=1"]}],
 "trusted":["assumed contract of the growing array (checked under C16)"]}
*/
/* Every entry put into the table stays reachable from the slot of its hash
   value: through insertions and through growth. */
#include "vp.h"
#include <string.h>
#include "simpleht.h"
typedef struct { int v; } D;
typedef struct { Sht_NodeHead h; D d; } AH_NODE;
#include "stubs/array_ht_contract.h"
#if FILL > 8
#define N 2
#elif FILL
#define N 3
#else
#define N 4
#endif
typedef struct { unsigned n; uint32_t h[N], nh, q; int next[N]; int slot[7]; unsigned char pos[N]; } IN;
VP_INPUTS(IN)
static SimpleHT ht;
static uint32_t hashf(const char *k, uint32_t u){ return in.nh; }
static void run(unsigned n)
{
    int i, j;
    D d;
    ASSUME(SimpleHT_Init(&ht, sizeof(D), LOAD, hashf) == 0);
    for( i = 0; i < FILL; ++i ) { uint32_t h = 3 * i; d.v = i; CHECK(SimpleHT_Add(&ht, "", 0, (const char *)&d, &h) != NULL, "added"); }
    /* earlier insertions */
    for( i = 0; i < N - 1; ++i ) if( i < n ) { d.v = 100 + i; CHECK(SimpleHT_Add(&ht, "", 0, (const char *)&d, &in.h[i]) != NULL, "added"); }
    d.v = 200;
    CHECK(SimpleHT_Add(&ht, "k", 0, (const char *)&d, NULL) != NULL, "added");
    /* look for q: the entries enumerated include every one with that hash */
    {
        int seen[N] = {0}, old = 0, seennew = 0, steps = 0;
        const char *p = NULL;
        for( i = 0; i <= N + 1 + FILL; ++i )
        {
            p = SimpleHT_Find(&ht, "k", 0, &in.q, p);
            if( p == NULL ) break;
            steps++;
            if( ((const D *)p)->v < FILL && (uint32_t)(3 * ((const D *)p)->v) == in.q ) old++;
            if( ((const D *)p)->v == 200 ) seennew++;
            for( j = 0; j < N - 1; ++j ) if( ((const D *)p)->v == 100 + j ) seen[j]++;
        }
        CHECK(p == NULL && steps <= n + 1 + FILL, "a look-up ends");
        CHECK(in.q != in.nh || seennew == 1, "the new entry is found under its hash");
        for( j = 0; j < N - 1; ++j ) CHECK(!(j < n && in.q == in.h[j]) || seen[j] == 1, "every earlier entry is found under its hash");
        for( j = 0; j < N - 1; ++j ) CHECK(j < n || seen[j] == 0, "nothing else is found");
#if FILL
        CHECK(old == (in.q % 3 == 0 && in.q / 3 < FILL), "each entry from before the growth is found under its hash");
#endif
    }
    {   /* hash computed from the key agrees with a given one */
        const char *a = SimpleHT_Find(&ht, "k", 0, NULL, NULL), *b = SimpleHT_Find(&ht, "k", 0, &in.nh, NULL);
        CHECK(a == b && a != NULL, "computed and given hash lead to the same place");
    }
    REACH("end");
}

void harness(void)
{
    int i;
    VP_LOAD();
    for( i = 0; i < N; ++i ) ASSUME((in.h[i] & 0x7fffff80) == 0);
    ASSUME((in.nh & 0x7fffff80) == 0 && (in.q & 0x7fffff80) == 0);
    switch( in.n ) { case 0: run(0); break; case 1: run(1); break; case 2: run(2); break; default: run(N - 1); break; }
}
