/*UNIT
{"kind":"bounded","bound":"a cache of 512 bytes, 16 fill levels and item lengths around the point where it is full, up to 3 nodes",
 "functions":["DNSCache_GetAvailableChunk","CacheHT_FindUnusedNode","CacheHT_CreateNewNode","Array_PushBack","Array_GetBySubscript"],
 "link":["cacheht.c","array.c"],"havoc":["Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","530","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200,
 "trusted":["time"]}
*/
/* The cache file: header, records growing up, nodes growing down, slots at the end; they never meet. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include "dnscache.c"
typedef struct { unsigned char end, used, sel; unsigned char len; uint32_t ver; int32_t size; } IN;
VP_INPUTS(IN)
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
time_t time(time_t *t){ return 5; }
static char map[512];
static int32_t g_end, g_count;
static CacheHT g_ht;
#define NODES (map + 448)
static void run(int used, int end, int len)
{
    Cht_Node *n; int32_t r; int i, rounded = (len + 15) / 16 * 16; char *newnode;
    memset(map, 0, sizeof(map));
    MapStart = map; CacheEnd = &g_end; CacheCount = &g_count; CacheInfo = &g_ht; CacheSize = sizeof(map);
    g_ht.NodeChunk.Data = NODES; g_ht.NodeChunk.DataLength = sizeof(Cht_Node); g_ht.NodeChunk.Used = used; g_ht.NodeChunk.Allocated = -1;
    g_ht.Free2DList = -1; g_end = end;
    newnode = NODES - used * (int)sizeof(Cht_Node);
    r = DNSCache_GetAvailableChunk(len, &n);
    if( r < 0 )
    {
        CHECK(end + rounded > newnode - map, "a record is refused only when it and its node do not fit");
        CHECK(g_end == end && g_ht.NodeChunk.Used == used && n == NULL, "nothing changes then");
        REACH("refused");
    } else {
        CHECK(r == used && (char *)n == newnode && g_ht.NodeChunk.Used == used + 1, "the next node");
        CHECK(n->Offset == end && (int)n->Length == rounded && g_end == end + rounded, "its own room");
        CHECK(end + rounded <= newnode - map, "records never run into the nodes");
        for( i = len; i < rounded; ++i ) CHECK(map[end + i] == '\xFE', "filled up");
        REACH("given");
    }
    for( i = 448 - 32 * used + 32; i < 512; ++i ) CHECK(map[i] == 0, "other nodes are not touched");
    for( i = 128; i < end; ++i ) CHECK(map[i] == 0, "nor are other records");
}
void harness(void)
{
    int e, u, l;
    VP_LOAD();
    switch( in.sel )
    {
    case 0: run(0, 384, 1); break; case 1: run(0, 400, 48); break; case 2: run(0, 400, 49); break; case 3: run(0, 384, 64); break;
    case 4: run(1, 384, 32); break; case 5: run(1, 384, 33); break; case 6: run(1, 400, 16); break; case 7: run(1, 400, 17); break;
    case 8: run(2, 352, 32); break; case 9: run(2, 352, 33); break; case 10: run(2, 384, 1); break; case 11: run(2, 368, 15); break;
    case 12: run(2, 400, 1); break; case 13: run(0, 448, 1); break; case 14: run(1, 368, 48); break; default: run(0, 128, 61); break;
    }
}
