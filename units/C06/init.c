/*UNIT
{"kind":"bounded","bound":"caches of 102400, 131072 and 1000000 bytes",
 "functions":["CreateNewCache","ReloadCache","IsReloadable","CacheHT_Init","CacheHT_ReInit","CacheHT_CalculateSlotCount","CacheHT_Free"],
 "link":["cacheht.c"],"havoc":["Log_Print","Log_DebugOn","Array_GetBySubscript","Array_PushBack","Array_Free"],
 "cbmc":["--unwind","200","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200,
 "trusted":["log and pow for caches of a megabyte and more","time"]}
*/
/* The cache file: header, records growing up, nodes growing down, slots at the end; they never meet. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include "dnscache.c"
typedef struct { unsigned char end, used, sel; unsigned char len; uint32_t ver; int32_t size; } IN;
VP_INPUTS(IN)
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
time_t time(time_t *t){ return 5; }
static struct _Header hdr; static int slot[256];
#define big ((char *)&hdr)
void *memset(void *p, int v, size_t n)
{
    size_t i;
    if( p == (void *)&hdr ) { CHECK(n == (size_t)CacheSize && v == 0, "the whole cache is cleared"); n = sizeof(hdr); }
    for( i = 0; i < n; ++i ) ((char *)p)[i] = v;
    return p;
}
void *Array_GetBySubscript(const Array *a, int i){ CHECK(a == &hdr.ht.Slots, "slots"); if( i < 0 || i >= a->Used || i >= 256 ) return NULL; return &slot[i]; }
int Array_PushBack(Array *a, const void *d, void *b){ return -1; }
void Array_Free(Array *a){ CHECK(a->Allocated <= 0, "the memory of the cache is not handed to free in parts"); a->Data = NULL; a->Used = a->Allocated = 0; }
static void run(int size)
{
    struct _Header *hd; int i, slots; char *nodes, *sl;
    MapStart = big; CacheSize = size; hd = &hdr;
    CreateNewCache();
    CHECK(sizeof(struct _Header) == 128 && hd->Ver == CACHE_VERSION && hd->CacheSize == size && hd->CacheCount == 0 && hd->End == 128, "an empty cache");
    CHECK(CacheInfo == &hd->ht && CacheEnd == &hd->End && CacheCount == &hd->CacheCount, "kept in the file");
    slots = hd->ht.Slots.Allocated; sl = hd->ht.Slots.Data; nodes = hd->ht.NodeChunk.Data;
    CHECK(slots > 0 && hd->ht.Slots.Used == slots, "slots");
    CHECK(sl + 4 * slots == big + size && sl >= big + 128, "at the end of the cache");
    CHECK(nodes + sizeof(Cht_Node) == sl && hd->ht.NodeChunk.Used == 0 && hd->ht.NodeChunk.Allocated < 0, "nodes before them");
    CHECK(slots <= 256, "slots"); for( i = 0; i < slots; ++i ) CHECK(slot[i] == -1, "all empty");
    CHECK(hd->ht.Free2DList == -1, "nothing to reuse");
    /* as read back at the next start, mapped elsewhere */
    hd->ht.Slots.Data = NULL; hd->ht.NodeChunk.Data = NULL; hd->CacheCount = 7; hd->End = 256; hd->ht.NodeChunk.Used = 3; CacheInfo = NULL; CacheEnd = NULL; CacheCount = NULL;
    hd->Ver = in.ver; hd->CacheSize = in.size;
    CHECK((IsReloadable() != FALSE) == (in.ver == CACHE_VERSION && in.size == size), "a file of another version or size is not read");
    ReloadCache();
    CHECK(hd->ht.Slots.Data == sl && hd->ht.NodeChunk.Data == nodes && hd->ht.NodeChunk.Used == 3 && hd->ht.Slots.Allocated == slots && hd->ht.Free2DList == -1, "read back where it is mapped");
    CHECK(CacheInfo == &hd->ht && *CacheEnd == 256 && *CacheCount == 7, "with what it held");
    CacheHT_Free(&hd->ht);
    REACH("laid out");
}
void harness(void)
{
    VP_LOAD();
    switch( in.sel ) { case 0: run(102400); break; case 1: run(131072); break; default: run(1000000); break; }
}
