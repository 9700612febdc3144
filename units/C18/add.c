/*UNIT
{"kind":"bounded","bound":"one record of a one-letter name per message, up to two records already stored (of the same or of another name or type); any times, rules, sections and data, 11 types, 3 classes; coefficients up to 3 (none where several answers are merged, and lifetimes and ages below 4096 and 8192 s there)",
 "functions":["DNSCache_AddItemsToCache","DNSCache_AddAItemToCache","DNSCache_GetAvailableChunk","DNSCache_FindFromCache","DNSCache_CacheMinTTL","IsValidCachedType"],
 "link":[],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","CacheTtlCrtl_Get","CacheHT_Get","CacheHT_FindUnusedNode","CacheHT_InsertToSlot","Log_Print","Log_DebugOn","Array_GetBySubscript"],
 "cbmc":["--unwind","24","--max-field-sensitivity-array-size","600"],"cost":20,"timeout":250,
 "variants":[{"name":"first","defines":["PAR=0"]},{"name":"parallel","defines":["PAR=1"]}],
 "trusted":["assumed contracts: parser (C01, C02), cache index (C06), rule list (C08, rules unit)","snprintf, time"]}
*/
/* What goes into the cache, and for how long. */
#include "vp.h"
#include <string.h>
#include <time.h>
static long vp_now;
#include "dnscache.c"
#include "stubs/snprintf_mini.h"
typedef struct {
    unsigned char sel; int otype; unsigned char purpose; uint32_t ttl; unsigned char d0, d1; 
    long now; _Bool first, inited, ignore;
    struct { uint32_t ttl; long added; unsigned char d0, d1; } old[2];
    _Bool ruleq, ruleown; CtrlContent rq, ro;
} IN;
VP_INPUTS(IN)
static char map[256];
static int32_t g_end, g_count;
static CacheHT g_ht;
static Cht_Node node0, node1, node2;        /* 0, 1: stored before, 2: the chunk handed out */
static CacheTtlCtrl g_ctl;
static struct { IHeader h; char e[16]; } msg;
static int lockdepth, ninsert, c_type, c_klass = 1, recs, given;
static const char *c_name = "n"; static CtrlContent rq, ro;
static int nold, reuse, nochunk, nodata, noname;
time_t time(time_t *t){ return in.now; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ lockdepth++; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ CHECK(0, "storing takes the exclusive lock"); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ lockdepth--; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp)
{ CHECK(raw == msg.e && len == msg.h.EntityLength && !tcp, "this message is read"); return 0; }
static char *it_next(DnsSimpleParserIterator *i)
{ if( recs >= 1 ) return NULL; recs++; i->Purpose = in.purpose; i->Type = c_type; i->Klass = c_klass; return msg.e; }
static int it_name(DnsSimpleParserIterator *i, char *b, int n){ CHECK(n >= 2, "room for a name"); if( noname ) return -1; strcpy(b, c_name); return 3; }
static int it_data(DnsSimpleParserIterator *i, char *b, int n)
{ CHECK(n >= 2, "room for data"); if( nodata ) return 0; b[0] = in.d0; b[1] = in.d1; return 2; }
static uint32_t it_ttl(DnsSimpleParserIterator *i){ return in.ttl; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
{ recs = 0; i->Next = it_next; i->GetName = it_name; i->ToCacheData = it_data; i->GetTTL = it_ttl; return 0; }
const CtrlContent *CacheTtlCrtl_Get(CacheTtlCtrl *c, const char *d)
{
    CHECK(c == &g_ctl, "the configured rules");
    if( strcmp(d, msg.h.Domain) == 0 ) return in.ruleq ? &rq : NULL;
    if( strcmp(d, c_name) == 0 ) return in.ruleown ? &ro : NULL;
    return NULL;    /* rules are for names; anything else has none */
}
Cht_Node *CacheHT_Get(CacheHT *h, const char *key, const Cht_Node *s, const uint32_t *hv)
{
    /* every stored record whose key may be this one, in some order */
    CHECK(h == &g_ht, "the cache index");
    if( s == NULL ) return nold > 0 ? &node0 : NULL;
    if( s == &node0 ) return nold > 1 ? &node1 : NULL;
    return NULL;
}
int32_t CacheHT_FindUnusedNode(CacheHT *h, uint32_t size, Cht_Node **out, void *bound, BOOL *isnew)
{
    CHECK(size % 16 == 0 && size > 0 && size <= 96, "chunks come in whole units");
    CHECK(bound == (void *)(map + g_end + size), "a new chunk ends where the limit is checked");
    if( nochunk ) return -1;
    given++;
    node2.Length = size; node2.UsedLength = 0; node2.Next = -1;
    if( reuse ) { node2.Offset = 64; *isnew = FALSE; } else *isnew = TRUE;
    *out = &node2;
    return 2;
}
static char want[32]; static int wantlen, keylen;
int CacheHT_InsertToSlot(CacheHT *h, const char *key, int k, Cht_Node *n, const uint32_t *hv)
{
    CHECK(k == 2 && n == &node2, "the new chunk is indexed");
    CHECK(strcmp(key, want + 1) == 0, "under the record's name, type and class");
    CHECK(lockdepth == 1, "under the lock");
    ninsert++;
    return 0;
}
void *Array_GetBySubscript(const Array *a, int i){ return NULL; }
static int kept(Cht_Node *n, int i){ return n->TTL == in.old[i].ttl && n->TimeAdded == in.old[i].added; }
static int moved(Cht_Node *n, uint32_t m){ return n->TTL == m && n->TimeAdded == in.now; }
static const CtrlContent *rule(void)
{   /* as documented: active, passive, no contagion */
    const CtrlContent *own = in.ruleown ? &ro : NULL;
    if( !in.ruleq ) return own;
    if( rq.Infection == TTL_CTRL_INFECTION_PASSIVLY ) return own != NULL ? own : &rq;
    if( rq.Infection == TTL_CTRL_INFECTION_NONE ) return own;
    return &rq;
}
static void put(Cht_Node *n, int k, int off, const char *key)
{
    n->Offset = off; n->Length = 32; n->TTL = in.old[k].ttl; n->TimeAdded = in.old[k].added;
    map[off] = '\xFF'; strcpy(map + off + 1, key); map[off + 1 + strlen(key) + 1] = in.old[k].d0; map[off + 1 + strlen(key) + 2] = in.old[k].d1;
    n->UsedLength = 1 + strlen(key) + 1 + 2;
}
static void run(int type, int n, const char *key, const char *k0, const char *k1, int valid)
{
    const CtrlContent *r; uint32_t ttl; int eligible, i, dup = 0, same[2], fresh[2], off; int32_t end0; uint32_t m;
    c_type = type; nold = n;
    put(&node0, 0, 128, k0); put(&node1, 1, 176, k1);
    want[0] = '\xFF'; strcpy(want + 1, key); keylen = strlen(key) + 1; want[1 + keylen] = in.d0; want[2 + keylen] = in.d1; wantlen = keylen + 3;
    same[0] = strcmp(k0, key) == 0; same[1] = strcmp(k1, key) == 0;
    for( i = 0; i < 2; ++i )
    {
        fresh[i] = i < nold && (in.ignore || in.now - in.old[i].added < in.old[i].ttl);
        if( same[i] && fresh[i] && in.old[i].d0 == in.d0 && in.old[i].d1 == in.d1 ) dup = 1;
    }
    end0 = g_end; off = reuse ? 64 : end0;
    DNSCache_AddItemsToCache((MsgContext *)&msg, in.first ? TRUE : FALSE);
    CHECK(lockdepth == 0, "no lock stays held");
    eligible = in.inited && (in.first || PAR) && in.purpose != DNS_RECORD_PURPOSE_UNKNOWN && in.purpose != DNS_RECORD_PURPOSE_QUESTION
               && valid && c_klass == DNS_CLASS_IN && !nodata && !noname;
    r = rule();
    if( r == NULL || r->State == TTL_STATE_ORIGINAL ) ttl = in.ttl;
    else if( r->State == TTL_STATE_NO_CACHE ) ttl = 0;
    else ttl = (r->Coefficient == 0 ? 0 : r->Coefficient == 1 ? in.ttl : r->Coefficient == 2 ? in.ttl << 1 : (in.ttl << 1) + in.ttl) + r->Increment;
    if( !eligible || dup || ttl == 0 || nochunk )
    {
        CHECK(ninsert == 0 && g_count == 0 && g_end == end0, "an ineligible, known or uncacheable record is not stored");
        CHECK(kept(&node0, 0) && kept(&node1, 1), "and nothing stored changes");
        REACH("not stored");
        return;
    }
    CHECK(ninsert == 1 && given == 1 && g_count == 1, "a record that may be cached is stored, once");
    CHECK(node2.Offset == off && g_end == (reuse ? end0 : end0 + (int)node2.Length), "in its own chunk");
    CHECK(node2.UsedLength == wantlen && node2.Length >= wantlen, "which is long enough");
    for( i = 0; i < wantlen; ++i ) CHECK(map[off + i] == want[i], "with its key and data unchanged");
    CHECK(node2.TimeAdded == in.now, "as of now");
#if PAR
    m = ttl;
    for( i = 0; i < 2; ++i ) if( same[i] && fresh[i] && in.old[i].ttl - (uint32_t)(in.now - in.old[i].added) < m ) m = in.old[i].ttl - (uint32_t)(in.now - in.old[i].added);
    if( !in.ignore )
    {
        CHECK(node2.TTL == m, "for no longer than any record of the same set");
        CHECK((same[0] && fresh[0] ? moved(&node0, m) : kept(&node0, 0)) && (same[1] && fresh[1] ? moved(&node1, m) : kept(&node1, 1)), "records of a set expire together, others keep their time");
    }
#else
    CHECK(node2.TTL == ttl, "for the time its rule gives");
    CHECK(kept(&node0, 0) && kept(&node1, 1), "other records keep their time");
#endif
    REACH("stored");
}
void harness(void)
{
    int i;
    VP_LOAD();
    ASSUME(in.now >= 0 && in.now < (1L << 40) && in.rq.Coefficient <= (PAR ? 0 : 3) && in.ro.Coefficient <= (PAR ? 0 : 3));
    if( PAR ) ASSUME(in.ttl < 4096 && in.rq.Increment < 4096 && in.ro.Increment < 4096 && in.old[0].ttl < 4096 && in.old[1].ttl < 4096 && in.now - in.old[0].added < 8192 && in.now - in.old[1].added < 8192);
    for( i = 0; i < 2; ++i ) ASSUME(in.old[i].added >= 0 && in.old[i].added <= in.now);
    ASSUME(in.purpose <= DNS_RECORD_PURPOSE_ADDITIONAL);
    Inited = in.inited; CacheParallel = PAR; MapStart = map; IgnoreTTL = in.ignore ? TRUE : FALSE; CacheEnd = &g_end; CacheCount = &g_count; CacheInfo = &g_ht; TtlCtrl = &g_ctl; CacheSize = sizeof(map);
    g_end = 16; rq = in.rq; ro = in.ro;
    strcpy(msg.h.Domain, "q"); msg.h.EntityLength = 16;
    switch( in.sel )
    {
    case 0: run(1, 2, "n 1 1", "n 1 1", "n 1 1", 1); break;
    case 1: reuse = 1; run(28, 2, "n 1C 1", "n 1C 1", "n 1 1", 1); break;
    case 2: run(65, 2, "n 41 1", "n 4 1", "n 41 1", 1); break;
    case 3: run(16, 2, "n 10 1", "n 1 1", "n 10 1", 1); break;
    case 4: reuse = 1; run(5, 2, "n 5 1", "n 5 1", "nn 5 1", 1); break;
    case 5: run(12, 2, "n C 1", "n C 1", "m C 1", 1); break;
    case 6: run(2, 2, "n 2 1", "n 2 1", "n 2 1", 1); break;
    case 7: run(15, 2, "n F 1", "n F 1", "n 15 1", 1); break;
    case 8: run(6, 2, "n 6 1", "n 6 1", "n 6 1", 0); break;
    case 9: run(41, 2, "n 29 1", "n 29 1", "n 29 1", 0); break;
    case 10: c_klass = 3; run(1, 2, "n 1 3", "n 1 3", "n 1 3", 1); break;
    case 11: c_klass = 255; run(28, 2, "n 1C FF", "n 1C FF", "n 1C 1", 1); break;
    case 12: run(1, 0, "n 1 1", "n 1 1", "n 1 1", 1); break;
    case 13: reuse = 1; run(28, 1, "n 1C 1", "n 1C 1", "n 1C 1", 1); break;
    case 14: nodata = 1; run(1, 0, "n 1 1", "n 1 1", "n 1 1", 1); break;
    case 15: noname = 1; run(1, 0, "n 1 1", "n 1 1", "n 1 1", 1); break;
    case 16: nochunk = 1; run(1, 0, "n 1 1", "n 1 1", "n 1 1", 1); break;
    default: run(33, 2, "n 21 1", "n 21 1", "n 21 1", 0); break;
    }
}
