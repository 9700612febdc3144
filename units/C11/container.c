/*UNIT
{"kind":"bounded","bound":"up to 4 hosts lines about up to 2 names, of the listed shapes (every kind of line, every order of kinds that changes the outcome); any addresses (with several lines: fixed addresses, two of them equal or all different), any failures (at one line) of the name map, the storage and the address reader",
 "functions":["HostsContainer_Load","HostsContainer_Add","HostsContainer_AddIP","HostsContainer_AddCName","HostsContainer_AddGoodIpList","HostsContainer_AddExcluded","HostsContainer_AddNode","HostsContainer_FindExist","HostsContainer_Find","HostsContainer_DetermineType"],
 "link":[],"havoc":["StringChunk_Match","StringChunk_Match_Exactly","StringChunk_Add","StringChunk_Free","StringChunk_Init","StableBuffer_Init","StableBufferIterator_Init","IpAddr_Parse","Log_Print","Log_DebugOn"],
 "variants":[{"name":"one","defines":["ONE"]},{"name":"more0","defines":["MORE","PART=0","SAME=0"]},{"name":"same0","defines":["MORE","PART=0","SAME=1"]},{"name":"more1","defines":["MORE","PART=1","SAME=0"]},{"name":"same1","defines":["MORE","PART=1","SAME=1"]},{"name":"more2","defines":["MORE","PART=2","SAME=0"]},{"name":"same2","defines":["MORE","PART=2","SAME=1"]},{"name":"more3","defines":["MORE","PART=3","SAME=0"]},{"name":"near","defines":["NEAR"]},{"name":"bad","defines":["BAD"]}],
 "cbmc":["--unwind","16","--unwindset","sscanf.0:40,sscanf.1:40,sscanf.4:40,sscanf.5:40,strlen.0:40,strcmp.0:40,memcmp.0:40,vp_same.0:40,harness.0:18,harness.1:18","--object-bits","12","--max-field-sensitivity-array-size","600"],"cost":10,"timeout":250,
 "trusted":["assumed contracts: name map (C08), address reader (C14), storage that never moves","sscanf, ctype"]}
*/
/* Hosts entries: what is found for a name is what its lines say. */
#include "vp.h"
#include <string.h>
#include "hostscontainer.c"
#include "stubs/sscanf_mini.h"
#include "stubs/ctype_c.h"
typedef struct { unsigned char sel, q; unsigned char addr[4][16]; _Bool parsefail, addfail, storefail, cbfail; } IN;
VP_INPUTS(IN)
#ifdef ONE
#define REACH_ONE(x) REACH(x)
#else
#define REACH_ONE(x)
#endif
static HostsContainer hc;
static int vp_same(const char *a, const char *b){ while( *a && *a == *b ) { ++a; ++b; } return *a == *b; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
/* the name map: a name leads to what was stored for it, nothing else */
static int nname; static char n0[24], n1[24]; static void *s0, *s1;
static BOOL look(const char *name, void **data)
{
    if( nname > 0 && vp_same(name, n0) ) { *data = &s0; return TRUE; }
    if( nname > 1 && vp_same(name, n1) ) { *data = &s1; return TRUE; }
    return FALSE;
}
BOOL StringChunk_Match(StringChunk *dl, const char *Str, const uint32_t *h, void **Data, DataCompare cb, void *ex)
{ CHECK(dl == &hc.Mappings && h == NULL, "this container's names"); return look(Str, Data); }
BOOL StringChunk_Match_Exactly(StringChunk *dl, const char *Str, const uint32_t *h, void **Data, DataCompare cb, void *ex)
{ CHECK(dl == &hc.Mappings && h == NULL, "this container's names"); return look(Str, Data); }
int StringChunk_Add(StringChunk *dl, const char *Str, const void *d, int len)
{
    CHECK(dl == &hc.Mappings && len == sizeof(void *), "one reference is kept for a name");
    if( in.addfail ) return -1;
    CHECK(nname < 2, "a name is put into the map once");
    if( nname == 0 ) { strcpy(n0, Str); s0 = *(void **)d; } else { CHECK(!vp_same(Str, n0), "a name is put into the map once"); strcpy(n1, Str); s1 = *(void **)d; }
    nname++;
    return 0;
}
/* storage: separate objects that never move */
static TableNode t0, t1, t2, t3; static int nt;
static char c0[24], c1[24], c2[24], c3[24]; static int nc;
static IpAddr ips[4]; static int nip;
static void *st_add(StableBuffer *s, const void *d, int len, BOOL a)
{
    void *p;
    if( in.storefail ) return NULL;
    CHECK(s == &hc.Table || s == &hc.TableIPAddr, "this container's storage");
    CHECK(a, "aligned");
    if( s == &hc.TableIPAddr ) { CHECK(len == sizeof(IpAddr) && nip < 4, "an address"); ips[nip] = *(const IpAddr *)d; return &ips[nip++]; }
    if( len == sizeof(TableNode) ) { p = nt == 0 ? &t0 : nt == 1 ? &t1 : nt == 2 ? &t2 : &t3; nt++; *(TableNode *)p = *(const TableNode *)d; return p; }
    CHECK(len <= 24, "text");
    p = nc == 0 ? c0 : nc == 1 ? c1 : nc == 2 ? c2 : c3; nc++;
    { int i; for( i = 0; i < len; ++i ) ((char *)p)[i] = ((const char *)d)[i]; }
    return p;
}
static int it_done;
static void *it_block(StableBufferIterator *i){ if( it_done || nip == 0 ) return NULL; it_done = 1; return ips; }
static int it_used(StableBufferIterator *i){ return nip * sizeof(IpAddr); }
static void it_reset(StableBufferIterator *i){ it_done = 0; }
int StableBufferIterator_Init(StableBufferIterator *i, StableBuffer *s)
{ CHECK(s == &hc.TableIPAddr, "addresses are looked for among the addresses"); i->NextBlock = it_block; i->CurrentBlockUsed = it_used; i->Reset = it_reset; return 0; }
int StringChunk_Init(StringChunk *d, StringList *l){ return 0; }
void StringChunk_Free(StringChunk *d, BOOL f){ }
static void st_free(StableBuffer *s){ }
int StableBuffer_Init(StableBuffer *s){ s->Add = st_add; s->Free = st_free; return 0; }
/* the address reader: the number after the mark says which address the text means */
int IpAddr_Parse(const char *s, IpAddr *a)
{
    int k = 0;
    if( in.parsefail ) return -1;
    while( *s ) { if( *s >= '0' && *s <= '3' ) k = *s - '0'; ++s; }
    memcpy(a->Addr, in.addr[k], 16);
    a->Zone = NULL;
    return 0;
}
static int calls; static HostsRecordType gt; static const void *gd;
static int cb(int n, HostsRecordType t, const void *d, void *a)
{ calls++; CHECK(n == 1 && a == &calls, "the entry is handed over with its number"); gt = t; gd = d; return in.cbfail ? -1 : 0; }
static int sameip(const void *d, int k){ return d != NULL && memcmp(((const IpAddr *)d)->Addr, in.addr[k], 16) == 0; }
/* lines: text; name 0/1; kind; k: which address (A, AAAA) ; text for CNAME, list */
typedef struct { const char *line, *name; HostsRecordType type; int k; const char *text; } L;
static void run(int n, L a, L b, L c, L d)
{
    int i, j, ok = 0; HostsRecordType r; const void *f;
    HostsContainer_Init(&hc);
    for( i = 0; i < n; ++i )
    {
        L l = i == 0 ? a : i == 1 ? b : i == 2 ? c : d;
        r = hc.Load(&hc, l.line);
        if( in.addfail || in.storefail || (in.parsefail && (l.type == HOSTS_TYPE_A || l.type == HOSTS_TYPE_AAAA)) )
            CHECK(r == HOSTS_TYPE_UNKNOWN || l.type == HOSTS_TYPE_EXCLUEDE || (in.addfail && i > 0), "a line that cannot be kept is reported");
        else CHECK(r == l.type, "the line is taken for what it is");
    }
    if( in.addfail || in.storefail ) { REACH_ONE("failures"); return; }
    for( j = 0; j < 3; ++j )
    {
        const char *name = j == 0 ? "na" : j == 1 ? "nb" : "nc";
        int q;
        for( q = 0; q < 5; ++q )
        {
            HostsRecordType t = q == 0 ? HOSTS_TYPE_A : q == 1 ? HOSTS_TYPE_AAAA : q == 2 ? HOSTS_TYPE_CNAME : q == 3 ? HOSTS_TYPE_EXCLUEDE : HOSTS_TYPE_GOOD_IP_LIST;
            int have = 0, v4 = 0, hit = 0, hit4 = 0;
            if( in.q != j * 5 + q ) continue;
            f = hc.Find(&hc, name, t, NULL, NULL);
            for( i = 0; i < n; ++i )
            {
                L l = i == 0 ? a : i == 1 ? b : i == 2 ? c : d;
                if( in.parsefail && (l.type == HOSTS_TYPE_A || l.type == HOSTS_TYPE_AAAA) ) continue;
                if( !vp_same(l.name, name) ) continue;
                if( l.type == t ) have = 1;
                if( l.type == HOSTS_TYPE_A && t == HOSTS_TYPE_AAAA ) v4 = 1;
            }
            CHECK((f != NULL) == (have || v4), "an entry is found exactly when a line of this name and kind was given");
            calls = 0; gd = NULL;
            f = hc.Find(&hc, name, t, cb, &calls);
            CHECK((f != NULL) == ((have || v4) && !in.cbfail), "the outcome tells whether the entry was handed over and taken");
            CHECK(calls == (have || v4), "one entry is handed over");
            if( calls )
            {
                CHECK(gt == t, "the entry is of the asked kind");
                for( i = 0; i < n; ++i )
                {
                    L l = i == 0 ? a : i == 1 ? b : i == 2 ? c : d; int same;
                    if( !vp_same(l.name, name) ) continue;
                    same = l.type == HOSTS_TYPE_A || l.type == HOSTS_TYPE_AAAA ? sameip(gd, l.k) :
                           l.type == HOSTS_TYPE_EXCLUEDE ? gd == NULL : gd != NULL && vp_same(gd, l.text);
                    if( l.type == t && same ) hit = 1;
                    if( l.type == HOSTS_TYPE_A && t == HOSTS_TYPE_AAAA && same ) hit4 = 1;
                }
                CHECK(have ? hit : hit4, "what is handed over is what one of these lines says (an IPv4 one only when there is no IPv6 one)");
            }
            if( have || v4 ) REACH("found"); else REACH_ONE("not found");
        }
    }
}
#define A0(n) {"1.0 " n, n, HOSTS_TYPE_A, 0, NULL}
#define A1(n) {"4.1 " n, n, HOSTS_TYPE_A, 1, NULL}
#define A2(n) {"4.2 " n, n, HOSTS_TYPE_A, 2, NULL}
#define S0(n) {"::0 " n, n, HOSTS_TYPE_AAAA, 0, NULL}
#define S1(n) {"a:1\t" n, n, HOSTS_TYPE_AAAA, 1, NULL}
#define S2(n) {"f:2 " n, n, HOSTS_TYPE_AAAA, 2, NULL}
#define CN(n) {"x-y.zz " n, n, HOSTS_TYPE_CNAME, 0, "x-y.zz"}
#define CF(n) {" f-7.e " n " # note", n, HOSTS_TYPE_CNAME, 0, "f-7.e"}
#define CD(n) {"beef.com " n, n, HOSTS_TYPE_CNAME, 0, "beef.com"}
#define EX(n) {"@@ " n, n, HOSTS_TYPE_EXCLUEDE, 0, NULL}
#define GL(n) {"<good> " n, n, HOSTS_TYPE_GOOD_IP_LIST, 0, "good"}
#define RUN(n, ...) do { L l[4] = { __VA_ARGS__ }; run(n, l[0], l[1], l[2], l[3]); } while( 0 )
#ifdef NEAR
static void near(void){ RUN(2, S0("na"), S1("nb")); }
#endif
int harness(void)
{
    VP_LOAD();
#ifdef NEAR
    in.q = 6;
#endif
    ASSUME(in.q < 15);
#ifdef NEAR
    /* two addresses that differ in one byte */
    in.addfail = in.storefail = in.parsefail = 0;
    if( in.sel > 15 ) return 0;
    { int i, j; for( j = 0; j < 16; ++j ) if( j == in.sel ) { for( i = 0; i < 16; ++i ) { in.addr[0][i] = i; in.addr[1][i] = i ^ (i == j); } near(); return 0; } }
    return 0;
#endif
#ifdef PART
    in.addfail = in.storefail = in.parsefail = 0;   /* (failures: variant "one") */
    if( in.sel / 3 != PART ) return 0;
    /* equal and different addresses, otherwise fixed (any address: variant "one") */
    { int i, j; for( i = 0; i < 4; ++i ) for( j = 0; j < 16; ++j ) in.addr[i][j] = 16 * (j + 1) + (SAME && i == 1 ? 0 : i); }
#endif
    switch( in.sel )
    {
#ifdef ONE
    case 0: RUN(1, A0("na")); break;
    case 1: RUN(1, S0("na")); break;
    case 2: RUN(1, CN("na")); break;
    case 3: RUN(1, CF("na")); break;
    case 4: RUN(1, EX("na")); break;
    case 5: RUN(1, GL("na")); break;
    case 6: RUN(1, CD("na")); break;
    case 7: RUN(1, S1("na")); break;
    case 8: RUN(1, S2("na")); break;
#elif defined(MORE)
#if PART == 0
    case 0: RUN(3, A0("na"), A1("na"), A2("na")); break;
#endif
#if PART == 0
    case 1: RUN(3, A0("na"), S1("na"), CN("na")); break;
#endif
#if PART == 0
    case 2: RUN(3, S0("na"), A1("na"), GL("na")); break;
#endif
#if PART == 1
    case 3: RUN(4, A0("na"), A1("nb"), S2("na"), CN("nb")); break;
#endif
#if PART == 1
    case 4: RUN(4, CN("na"), A1("na"), EX("na"), S2("na")); break;
#endif
#if PART == 1
    case 5: RUN(3, A0("na"), S1("na"), S2("na")); break;
#endif
#if PART == 2
    case 6: RUN(2, EX("na"), A1("nb")); break;
#endif
#if PART == 2
    case 7: RUN(2, GL("na"), CD("nb")); break;
#endif
#if PART == 2
    case 8: RUN(3, CN("na"), CF("na"), GL("nb")); break;
#endif
#if PART == 3
    case 9: RUN(2, A0("na"), S1("na")); break;
#endif
#else
    case 0: CHECK(HostsContainer_Init(&hc) == 0 && hc.Load(&hc, "1.0") == HOSTS_TYPE_UNKNOWN, "half a line is not an entry"); break;
    case 1: HostsContainer_Init(&hc); CHECK(hc.Load(&hc, "") == HOSTS_TYPE_UNKNOWN, "an empty line is not an entry"); break;
    case 2: HostsContainer_Init(&hc); CHECK(hc.Load(&hc, "_a b") == HOSTS_TYPE_UNKNOWN, "not a host name"); break;
    case 3: HostsContainer_Init(&hc); CHECK(hc.Load(&hc, "<> b") == HOSTS_TYPE_UNKNOWN, "a list has a name"); break;
    case 4: HostsContainer_Init(&hc); CHECK(hc.Load(&hc, "# b") == HOSTS_TYPE_UNKNOWN, "a note is not an entry"); break;
#endif
    default: return 0;
    }
#ifdef BAD
    CHECK(nname == 0 && nt == 0, "nothing is stored for such a line");
    CHECK(hc.Find(&hc, "b", HOSTS_TYPE_UNKNOWN, NULL, NULL) == NULL, "nothing is found for such a line");
    REACH("refused");
#endif
    return 0;
}
