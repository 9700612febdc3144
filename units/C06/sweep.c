/*UNIT
{"kind":"bounded","bound":"up to 3 records; any ages, lifetimes and clock readings",
 "functions":["DNSCacheTTLCountdown_Task"],
 "link":[],"havoc":["CacheHT_RemoveFromSlot","Array_GetBySubscript","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","8"],"cost":5,"timeout":200,
 "trusted":["assumed contracts: cache index (index unit), Array (C16)","time, rwlock"]}
*/
/* The periodic sweep removes exactly the records whose lifetime is over. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include "dnscache.c"
typedef struct { unsigned char n; long now; struct { uint32_t ttl; long added; uint32_t len; } r[3]; } IN;
VP_INPUTS(IN)
static char map[512];
static int32_t g_end, g_count;
static CacheHT g_ht;
static Cht_Node node0, node1, node2;
static int locked, removed[3];
static Cht_Node *nd(int i){ return i == 0 ? &node0 : i == 1 ? &node1 : &node2; }
time_t time(time_t *t){ return in.now; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ CHECK(!locked, "the lock is taken once"); locked = 1; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ CHECK(locked, "released when held"); locked = 0; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
void *Array_GetBySubscript(const Array *a, int i){ CHECK(a == &g_ht.NodeChunk, "the nodes"); return i >= 0 && i < a->Used ? nd(i) : NULL; }
int CacheHT_RemoveFromSlot(CacheHT *h, int32_t i, Cht_Node *n)
{
    CHECK(locked && h == &g_ht && i >= 0 && i < 3 && n == nd(i), "a record is taken out under the lock");
    CHECK(!removed[i], "once"); removed[i] = 1;
    if( i == h->NodeChunk.Used - 1 ) h->NodeChunk.Used--;
    return 0;
}
static void run(int n)
{
    int i, left = n, gone = 0, off = sizeof(struct _Header), e;
    MapStart = map; CacheEnd = &g_end; CacheCount = &g_count; CacheInfo = &g_ht; Inited = TRUE; CacheSize = sizeof(map);
    g_ht.NodeChunk.Used = n; g_ht.NodeChunk.Allocated = -1;
    for( i = 0; i < n; ++i )
    {
        nd(i)->TTL = in.r[i].ttl; nd(i)->TimeAdded = in.r[i].added; nd(i)->Offset = off; nd(i)->Length = 32 + 16 * i;
        map[off] = '\xFF'; off += 32 + 16 * i;
    }
    g_end = off; g_count = 3;
    DNSCacheTTLCountdown_Task(NULL, NULL);
    CHECK(!locked, "no lock stays held");
    for( i = 0; i < n; ++i )
    {
        int dead = in.r[i].ttl > 0 && in.now - in.r[i].added >= in.r[i].ttl;
        CHECK(removed[i] == dead, "exactly the records whose lifetime is over are removed");
        if( dead ) { gone++; CHECK(nd(i)->TTL == 0 && map[nd(i)->Offset] == '\xFD', "and marked so"); }
        else CHECK(nd(i)->TTL == in.r[i].ttl && nd(i)->TimeAdded == in.r[i].added && map[nd(i)->Offset] == '\xFF', "others are not touched");
    }
    CHECK(g_count == 3 - gone, "counted");
    e = g_ht.NodeChunk.Used == 0 ? (int)sizeof(struct _Header) : nd(g_ht.NodeChunk.Used - 1)->Offset + (int)nd(g_ht.NodeChunk.Used - 1)->Length;
    CHECK(g_end == e, "new records go behind the last chunk still in the index");
    REACH("swept");
}
void harness(void)
{
    int i;
    VP_LOAD();
    ASSUME(in.now >= 0 && in.now < (1L << 40));
    for( i = 0; i < 3; ++i ) ASSUME(in.r[i].added >= 0 && in.r[i].added <= in.now);
    switch( in.n ) { case 0: run(0); break; case 1: run(1); break; case 2: run(2); break; default: run(3); break; }
}
