/*UNIT
{"kind":"bounded","bound":"up to 3 stored records (one-letter names, alias chains of up to 2 steps, one over-long alias); any ages, lifetimes, data, clock readings and callee failures",
 "functions":["DNSCache_FetchFromCache","DNSCache_GetByQuestion","DNSCache_GetRawRecordsFromCache","DNSCache_GetCNameFromCache","DNSCache_FindFromCache","IsValidCachedType"],
 "link":[],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","DnsGenerator_Init","DNSCompress","CacheHT_Get","Log_Print","Log_DebugOn","MsgContext_SendBack","ShowNormalMessage","DomainStatistic_Add","Array_GetBySubscript"],
 "variants":[{"name":"direct","defines":["DIRECT"]},{"name":"alias1","defines":["ALIAS=1"]},{"name":"alias2","defines":["ALIAS=2"]},{"name":"long","defines":["LONG"]}],
 "cbmc":["--unwind","24","--unwindset","strlen.0:330,strcpy.0:330,fill.0:330,snprintf.0:330,snprintf.3:330,memcmp.0:330","--max-field-sensitivity-array-size","800"],"cost":20,"timeout":250,
 "trusted":["assumed contracts: parser (C01, C02), message generator (C17), cache index (C06)","snprintf, time"]}
*/
/* What comes out of the cache: only records of exactly the asked name (or of
   where its aliases lead), type and class, only while they last, with the time
   that is left; and all of them. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include "dnscache.c"
#include "stubs/snprintf_mini.h"
typedef struct {
    unsigned char sel; long now; _Bool inited, ignore, edns, sendfail, compfail, ednsfail, genfail;
    struct { uint32_t ttl; long added; unsigned char d; } n[3];
    unsigned char flags[2]; int clen;
} IN;
VP_INPUTS(IN)
static char map[800];
static int32_t g_end, g_count;
static CacheHT g_ht;
static Cht_Node node0, node1, node2;
static struct { IHeader h; char e[64]; } msg;
static int nn, lockdepth, c_type, c_klass, q_bad;
static const char *c_name;
time_t time(time_t *t){ return in.now; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ CHECK(0, "reading takes the shared lock"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ lockdepth++; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ lockdepth--; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
void ShowNormalMessage(IHeader *h, char p){ }
void *Array_GetBySubscript(const Array *a, int i){ return NULL; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp)
{ CHECK(raw == msg.e && len == 16 && !tcp, "this query is read"); return 0; }
static int qread;
static char *it_next(DnsSimpleParserIterator *i)
{ if( qread ) return NULL; qread = 1; i->Purpose = q_bad ? DNS_RECORD_PURPOSE_ANSWER : DNS_RECORD_PURPOSE_QUESTION; i->Type = c_type; i->Klass = c_klass; return msg.e; }
static int it_name(DnsSimpleParserIterator *i, char *b, int n){ strcpy(b, c_name); return 3; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
{ qread = 0; i->Next = it_next; i->GetName = it_name; return 0; }
Cht_Node *CacheHT_Get(CacheHT *h, const char *key, const Cht_Node *s, const uint32_t *hv)
{
    CHECK(h == &g_ht && lockdepth == 1, "the index is read under the lock");
    if( s == NULL ) return nn > 0 ? &node0 : NULL;
    if( s == &node0 ) return nn > 1 ? &node1 : NULL;
    if( s == &node1 ) return nn > 2 ? &node2 : NULL;
    return NULL;
}
/* generator: what is put into the answer */
static int ngen, used[3], ncname, cn_bad, purpose, nedns, order_bad; static uint32_t cnttl[2]; static char cnt[2][4];
static DNSHeader hdr;
static DnsRecordPurpose g_next(DnsGenerator *g){ if( purpose < 4 ) purpose++; return purpose == 1 ? DNS_RECORD_PURPOSE_QUESTION : purpose == 2 ? DNS_RECORD_PURPOSE_ANSWER : purpose == 3 ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL; }
static int g_cname(DnsGenerator *g, const char *name, const char *cname, int ttl)
{
    if( in.genfail ) return -1;
    if( purpose != 2 || ngen ) order_bad = 1;
    if( ncname >= 2 ) return -1;        /* full */
    cnttl[ncname] = ttl; cnt[ncname][0] = cname[0]; cnt[ncname][1] = cname[0] ? cname[1] : 0; ncname++;
    return 0;
}
static char last_name; static int bad_rec;
static int g_gen(DnsGenerator *g, const char *name, DNSRecordType t, DNSRecordClass k, const char *data, int len, uint32_t ttl)
{
    int i, hit = -1;
    if( in.genfail ) return -1;
    if( purpose != 2 ) order_bad = 1;
    if( t != c_type || k != c_klass || len != 1 || name[1] != 0 ) bad_rec = 1;
    last_name = name[0];
    for( i = 0; i < 3; ++i ) if( i < nn )
    {
        Cht_Node *n = i == 0 ? &node0 : i == 1 ? &node1 : &node2;
        if( data == map + n->Offset + n->UsedLength - 1 )
        {
            hit = i;
            if( ttl != (in.ignore ? in.n[i].ttl : in.n[i].ttl - (uint32_t)(in.now - in.n[i].added)) ) bad_rec = 1;
            if( *data != (char)in.n[i].d ) bad_rec = 1;
        }
    }
    if( hit < 0 ) bad_rec = 1; else used[hit]++;
    ngen++;
    return 0;
}
static int g_edns(DnsGenerator *g, int size){ if( purpose != 4 ) order_bad = 1; if( in.ednsfail ) return -1; nedns++; return 0; }
static int g_len(const DnsGenerator *g){ return 33; }
int DnsGenerator_Init(DnsGenerator *g, char *b, int n, const char *src, int sl, BOOL strip)
{
    CHECK(b == msg.e + 16 && n == 64 - 16 && src == msg.e && sl == 16, "the answer is built behind the query, inside the buffer");
    CHECK(strip, "from the question alone");
    g->Buffer = b; g->Header = &hdr; purpose = 1;
    g->NextPurpose = g_next; g->CName = g_cname; g->Generate = (void *)g_gen; g->EDns = g_edns; g->Length = g_len;
    return 0;
}
int DNSCompress(char *b, int n){ CHECK(b == msg.e + 16 && n == 33, "the generated answer is packed"); return in.compfail ? -1 : 20; }
static int nsent, nstat;
int MsgContext_SendBack(MsgContext *c)
{
    CHECK((void *)c == (void *)&msg && msg.h.EntityLength == 20, "the answer goes to the asker, at its length");
    nsent++; return in.sendfail ? -1 : 0;
}
int DomainStatistic_Add(IHeader *h, StatisticType t){ CHECK(t == STATISTIC_TYPE_CACHE, "counted as cached"); nstat++; return 0; }

static void put(Cht_Node *n, int k, int off, const char *key, const char *cname)
{
    int l = strlen(key) + 2;
    n->Offset = off; n->TTL = in.n[k].ttl; n->TimeAdded = in.n[k].added; n->Length = 400;
    map[off] = '\xFF'; strcpy(map + off + 1, key);
    if( cname != NULL ) { strcpy(map + off + l, cname); l += strlen(cname) + 1; } else map[off + l++] = in.n[k].d;
    n->UsedLength = l;
}
static int fresh(int i){ return i < nn && (in.ignore || in.now - in.n[i].added < in.n[i].ttl); }
/* c: the stored alias records that lead on from the asked name, in order (-1: none);
   r: which stored records are of the name reached after 0, 1, 2 aliases (bit set) */
static void run(int n, int c0, int c1, char name1, char name2, int r0, int r1, int r2)
{
    int ret, steps = 0, want, i, any = 0, ok;
    nn = n;
    if( c_type != DNS_TYPE_CNAME && c0 >= 0 && fresh(c0) ) { steps = 1; if( c1 >= 0 && fresh(c1) ) steps = 2; }
    want = steps == 0 ? r0 : steps == 1 ? r1 : r2;
    ret = DNSCache_FetchFromCache((MsgContext *)&msg, sizeof(msg));
    CHECK(lockdepth == 0, "no lock stays held");
    CHECK(!bad_rec, "every record answered is a stored one of the asked type and class, with its data and the time it has left");
    CHECK(!order_bad, "aliases, then records, in the answer section");
    for( i = 0; i < 3; ++i )
    {
        CHECK(used[i] <= 1, "no record is answered twice");
        CHECK(!used[i] || (fresh(i) && in.n[i].ttl != 0 && (want >> i & 1)), "no expired record, and none of another name, is answered");
        if( fresh(i) && in.n[i].ttl != 0 && (want >> i & 1) ) any = 1;
    }
    CHECK((ret == 0) <= (nsent == 1), "a query is settled only by an answer that was sent");
    CHECK(nsent == 0 || ngen > 0, "an answer has records of the asked type");
    ok = in.inited && !q_bad && c_klass == DNS_CLASS_IN && IsValidCachedType(c_type) && any;
    if( nsent )
    {
        CHECK(ok && (in.ignore || 1), "an answer is given only to a question for records that are stored");
        CHECK(ncname == steps, "each alias on the way is part of the answer");
        if( steps >= 1 ) CHECK(cnt[0][0] == name1 && cnt[0][1] == 0 && cnttl[0] == (in.ignore ? in.n[c0].ttl : in.n[c0].ttl - (uint32_t)(in.now - in.n[c0].added)), "with the time it has left");
        if( steps >= 2 ) CHECK(cnt[1][0] == name2 && cnt[1][1] == 0 && cnttl[1] == (in.ignore ? in.n[c1].ttl : in.n[c1].ttl - (uint32_t)(in.now - in.n[c1].added)), "with the time it has left");
        CHECK(last_name == (steps == 0 ? 'a' : steps == 1 ? name1 : name2), "records carry the name they belong to");
        for( i = 0; i < 3; ++i ) CHECK(used[i] == (fresh(i) && in.n[i].ttl != 0 && (want >> i & 1)), "all records of the set are answered");
        CHECK(hdr.Flags.Direction == 1 && hdr.Flags.ResponseCode == 0 && hdr.Flags.AuthoritativeAnswer == 0 && hdr.Flags.RecursionAvailable == 1, "the answer is a plain, non-authoritative response");
        CHECK(nedns == (in.edns ? 1 : 0), "EDNS is answered with EDNS");
        CHECK(nstat == (ret == 0), "counted");
        REACH("answered");
    } else {
        CHECK(ret != 0 && nstat == 0, "a query that is not answered goes on");
        CHECK(!ok || in.genfail || in.compfail || (in.edns && in.ednsfail), "a question for stored records is answered");
        CHECK(msg.h.EntityLength == 16 && msg.e[0] == 7 && msg.e[15] == 8, "unchanged");
        REACH("goes on");
    }
}
#ifndef DIRECT
static void alive(int pattern, int ign)
{
    int i;
    in.now = 1000; in.ignore = ign; IgnoreTTL = ign ? TRUE : FALSE; in.inited = 1; Inited = TRUE; in.genfail = 0;
    for( i = 0; i < 3; ++i ) { in.n[i].added = 900; in.n[i].ttl = pattern >> i & 1 ? 101 + 700 * i : 100; }
}
#endif
#ifdef ALIAS
static void ask(const char *name, int type, int klass);
static void alias(int pattern, int ign)
{
    alive(pattern, ign);
#if ALIAS == 1
    ask("a", 1, 1); put(&node0, 0, 128, "a 5 1", "b"); put(&node1, 1, 160, "b 1 1", NULL); put(&node2, 2, 192, "a 1 1", NULL); run(3, 0, -1, 'b', 0, 4, 2, 0);
#else
    ask("a", 28, 1); put(&node0, 0, 128, "c 1C 1", NULL); put(&node1, 1, 160, "b 5 1", "c"); put(&node2, 2, 192, "a 5 1", "b"); run(3, 2, 1, 'b', 'c', 0, 0, 1);
#endif
}
#endif
static char longname[320];
static void fill(int n){ int i; for( i = 0; i < n; ++i ) longname[i] = i % 50 == 49 ? '.' : 'x'; longname[n] = 0; }
static void ask(const char *name, int type, int klass){ c_name = name; c_type = type; c_klass = klass; }
void harness(void)
{
    int i;
    VP_LOAD();
    ASSUME(in.now >= 0 && in.now < (1L << 40));
    for( i = 0; i < 3; ++i ) ASSUME(in.n[i].added >= 0 && in.n[i].added <= in.now);
    Inited = in.inited ? TRUE : FALSE; MapStart = map; IgnoreTTL = in.ignore ? TRUE : FALSE; CacheEnd = &g_end; CacheCount = &g_count; CacheInfo = &g_ht; CacheSize = sizeof(map);
    msg.h.EntityLength = 16; msg.h.EDNSEnabled = in.edns ? TRUE : FALSE; msg.e[0] = 7; msg.e[15] = 8;
    *(unsigned char *)&hdr.Flags = in.flags[0]; *((unsigned char *)&hdr.Flags + 1) = in.flags[1];
    switch( in.sel )
    {
#ifdef DIRECT
    case 0: ask("a", 1, 1); put(&node0, 0, 128, "a 1 1", NULL); put(&node1, 1, 160, "a 1 1", NULL); put(&node2, 2, 192, "a 1 1", NULL); run(3, -1, -1, 0, 0, 7, 0, 0); break;
    case 1: ask("a", 1, 1); put(&node0, 0, 128, "a 1C 1", NULL); put(&node1, 1, 160, "a 1 1", NULL); put(&node2, 2, 192, "a 1 1C", NULL); run(3, -1, -1, 0, 0, 2, 0, 0); break;
    case 2: ask("a", 28, 1); put(&node0, 0, 128, "b 1C 1", NULL); put(&node1, 1, 160, "aa 1C 1", NULL); put(&node2, 2, 192, "a 1C 1", NULL); run(3, -1, -1, 0, 0, 4, 0, 0); break;
    case 5: ask("a", 1, 1); put(&node0, 0, 128, "a 1 1", NULL); run(0, -1, -1, 0, 0, 0, 0, 0); break;
    case 6: ask("a", 1, 3); put(&node0, 0, 128, "a 1 3", NULL); run(1, -1, -1, 0, 0, 1, 0, 0); break;
    case 7: ask("a", 6, 1); put(&node0, 0, 128, "a 6 1", NULL); run(1, -1, -1, 0, 0, 1, 0, 0); break;
    case 8: q_bad = 1; ask("a", 1, 1); put(&node0, 0, 128, "a 1 1", NULL); run(1, -1, -1, 0, 0, 1, 0, 0); break;
    case 9: ask("a", 15, 1); put(&node0, 0, 128, "a F 1", NULL); put(&node1, 1, 160, "a 15 1", NULL); put(&node2, 2, 192, "A F 1", NULL); run(3, -1, -1, 0, 0, 1, 0, 0); break;
    default: ask("a", 65, 1); put(&node0, 0, 128, "a 41 1", NULL); put(&node1, 1, 160, "a 4 1", NULL); put(&node2, 2, 192, "a 41 11", NULL); run(3, -1, -1, 0, 0, 1, 0, 0); break;
#elif defined(ALIAS)
    /* the ages are fixed here: which of the three records is still alive is
       what matters (every combination), the rest of the time is direct's */
    case 0: alias(0, 0); break;
    case 1: alias(1, 0); break;
    case 2: alias(2, 0); break;
    case 3: alias(3, 0); break;
    case 4: alias(4, 0); break;
    case 5: alias(5, 0); break;
    case 6: alias(6, 0); break;
    case 7: alias(7, 0); break;
    case 8: alias(0, 1); break;
    case 9: alias(5, 1); break;
    default: alive(3, 0);  ask("a", 1, 1); put(&node0, 0, 128, "a 5 1", "a"); put(&node1, 1, 160, "a 1 1", NULL); nn = 2;
             DNSCache_FetchFromCache((MsgContext *)&msg, sizeof(msg)); CHECK(lockdepth == 0 && !bad_rec, "an alias of itself ends the search"); REACH("loop"); break;
#else
    case 0: alive(7, 0); fill(300); ask("a", 1, 1); put(&node0, 0, 128, "a 5 1", longname); nn = 1;
             DNSCache_FetchFromCache((MsgContext *)&msg, sizeof(msg)); CHECK(lockdepth == 0 && nsent == 0, "an over-long alias is not followed"); REACH("long"); break;
    default: alive(7, 0); fill(253); ask("a", 1, 1); put(&node0, 0, 128, "a 5 1", longname); nn = 1;
             DNSCache_FetchFromCache((MsgContext *)&msg, sizeof(msg)); CHECK(lockdepth == 0, "the longest alias fits"); REACH("longest"); break;
#endif
    }
}
