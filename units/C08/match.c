/*UNIT
{"kind":"bounded","bound":"the 23 combinations of a name (0 to 9 labels) and 3 rules listed in harness() (exact, parent, duplicate, leading-dot and wildcard rules, colliding hashes, both chain orders); any acceptance predicate, any pattern-matching relation",
 "functions":["StringChunk_Init","StringChunk_Add","StringChunk_Add_Domain","StringChunk_Match_NoWildCard","StringChunk_Match_OnlyWildCard","StringChunk_Match_OnlyWildCard_GetOne","StringChunk_Match","StringChunk_Match_Exactly","StringChunk_Domain_Match_NoWildCard","StringChunk_Domain_Match","StringChunk_Domain_Match_WildCardRandom"],
 "link":["stringchunk.c"],"havoc":["SimpleHT_Init","SimpleHT_Add","SimpleHT_Find","SimpleHT_Enum","SimpleHT_Free","Array_Init","StableBuffer_Init","BKDRHash"],
 "cbmc":["--unwind","26"],"cost":60,"timeout":300,
 "variants":[{"name":"domain","defines":["OP=0"]},{"name":"nodata","defines":["OP=1"]},{"name":"random","defines":["OP=2"]},{"name":"match","defines":["OP=3"]},{"name":"exactly","defines":["OP=4"]}],
 "trusted":["assumed contracts of the hash table (checked in unit ht) and the growing array (checked under C16)","fnmatch: any relation between patterns and names","strpbrk, rand, srand, time: C meaning, any value"]}
*/
#include "vp.h"
#include <string.h>
#include <fnmatch.h>
#include "stringchunk.h"
#include "common.h"
#include "stubs/array_words_contract.h"
#ifndef NR
#define NR 3
#endif
#define RL 24
#define DL 24
typedef struct { unsigned char d; unsigned char g, acc; _Bool withhash; uint32_t h; int rnd; } IN;
VP_INPUTS(IN)
static char r0[RL], r1[RL], r2[RL], dom[DL + 4];
static char *const rule[3] = {r0, r1, r2};
static int dat0, dat1, dat2, ndat, nadd;
static StringChunk sc;
static StringList list;

/* stored strings and data: a copy that stays where it is */
static void *list_add(StringList *l, const char *s, const char *delim)
{ CHECK(delim == NULL, "rules are not split"); return (void *)s; }
static void *sb_add(StableBuffer *s, const void *d, int len, BOOL al)
{ int *p = ndat == 0 ? &dat0 : ndat == 1 ? &dat1 : &dat2; ndat++; CHECK(len == sizeof(int), "the data's length"); *p = *(const int *)d; return p; }
int StableBuffer_Init(StableBuffer *s){ s->Add = sb_add; return 0; }

/* hash table contract: looking a key up enumerates every entry added under an
   equal key, possibly others, in no particular order */
static void *ht_ent[NR][4];
static const char *ht_key[NR];
static int ht_n, ht_len, ht_down, ht_all;
static char eq[NR][DL]; /* rule in table place j equals the name from at on */
uint32_t BKDRHash(const char *s, uint32_t u){ return in.h; }
int SimpleHT_Init(SimpleHT *ht, int len, size_t load, uint32_t (*f)(const char *, uint32_t))
{ CHECK(f == BKDRHash, "the table hashes names the way queries are hashed"); ASSUME(len <= 32); ht_len = len; return 0; }
const char *SimpleHT_Add(SimpleHT *ht, const char *Key, int kl, const char *Data, const uint32_t *Hash)
{
    int w, n = ht_n++;
    ASSUME(n < NR);
    for( w = 0; w < 4; ++w ) if( w * sizeof(void *) < ht_len ) ht_ent[n][w] = ((void *const *)Data)[w];
    ht_key[n] = Key;
    return (const char *)ht_ent[n];
}
const char *SimpleHT_Find(SimpleHT *ht, const char *Key, int kl, const uint32_t *Hash, const char *Start)
{
    int i, j, on = Start == NULL, at = -1;
#ifdef __CPROVER
    if( __CPROVER_same_object(Key, dom) ) at = Key - dom;
#endif
    CHECK(Hash == NULL || (*Hash == in.h && Key == dom), "a hash value given belongs to the name looked up");
    for( i = 0; i < NR; ++i )
    {
        j = ht_down ? NR - 1 - i : i;
        if( j >= ht_n ) continue;
        if( on && ((at >= 0 && at < DL ? eq[j][at] : strcmp(ht_key[j], Key) == 0) || ht_all) )
            return (const char *)ht_ent[j];
        if( Start == (const char *)ht_ent[j] ) on = 1;
    }
    return NULL;
}
const char *SimpleHT_Enum(SimpleHT *ht, int32_t *s){ return NULL; }
void SimpleHT_Free(SimpleHT *ht){ }

/* pattern matching: any relation between patterns and names */
static const char *text(int k);
int fnmatch(const char *p, const char *s, int fl)
{
    int k;
    CHECK(fl == FNM_NOESCAPE, "patterns are plain");
    CHECK(strcmp(s, dom) == 0, "patterns are matched against the whole name");
    for( k = 0; k < NR; ++k ) if( p == text(k) ) return in.g >> k & 1 ? 0 : FNM_NOMATCH;
    CHECK(0, "only the rules are used as patterns");
    return FNM_NOMATCH;
}
#ifdef __CPROVER
char *strpbrk(const char *s, const char *acc)
{ int i; CHECK(acc[0] == '*' && acc[1] == '?' && acc[2] == '[' && acc[3] == 0, "what makes a pattern"); for( i = 0; s[i]; ++i ) if( s[i] == '*' || s[i] == '?' || s[i] == '[' ) return (char *)s + i; return NULL; }
#endif
int rand(void){ ASSUME(in.rnd >= 0); return in.rnd; }
void srand(unsigned s){ }
time_t time(time_t *t){ return 0; }
static int same_at(const char *a, int s){ int i; for( i = 0; i < RL && s + i < DL; ++i ){ if( a[i] != dom[s + i] ) return 0; if( a[i] == 0 ) return 1; } return 0; }
static BOOL acceptable(const void **d, const void *e){ CHECK(e == &sc, "the caller's argument is handed over"); return in.acc >> *(const int *)d & 1; }

static int wild(int k){ int i; for( i = 0; i < RL; ++i ) if( rule[k][i] == '*' || rule[k][i] == '?' || rule[k][i] == '[' ) return 1; return 0; }
static const char *text(int k){ return rule[k][0] == '.' ? rule[k] + 1 : rule[k]; }

static void run(const char *name, const char *a0, const char *a1, const char *a2, int order)
{
    const char *const a[3] = {a0, a1, a2};
    int i, k, ret, got = -1, level[NR], best = 99;
    void *data = &data;
    uint32_t hv;
    for( k = 0; k < NR; ++k )
    {
        for( i = 0; ; ++i ) { rule[k][i] = a[k][i]; if( a[k][i] == 0 ) break; }
    }
    ht_down = order & 1; ht_all = order >> 1;
    for( i = 0; ; ++i ) { dom[i] = name[i]; if( name[i] == 0 ) break; }
    /* what an earlier, longer name may have left behind */
    if( i == 0 ) { dom[1] = '.'; dom[2] = 'a'; dom[3] = 0; }
    list.Add = list_add;
    CHECK(StringChunk_Init(&sc, &list) == 0, "init");
    for( k = 0; k < NR; ++k ) CHECK(StringChunk_Add_Domain(&sc, rule[k], &k, sizeof(int)) == 0, "a rule is taken");
    hv = in.h;
    for( k = 0; k < NR; ++k ) for( i = 0; i < DL; ++i ) eq[k][i] = k < ht_n && same_at(ht_key[k], i);

    /* reference: how close each rule is to the name */
    for( k = 0; k < NR; ++k )
    {
        int ok = OP == 1 || (in.acc >> k & 1);
        level[k] = 99;
        if( !ok ) continue;
#if OP == 4
        if( same_at(text(k), 0) ) level[k] = wild(k) ? 50 : 0;
#else
        if( wild(k) ) { if( in.g >> k & 1 ) level[k] = OP == 2 && text(k)[0] == '*' && text(k)[1] == 0 ? 60 : 50; }
        else for( i = 0; i < DL; ++i )
        {
            if( dom[i] == 0 && i > 0 ) break;
            if( (i == 0 || (OP != 3 && dom[i - 1] == '.')) && same_at(text(k), i) ) { level[k] = i; break; }
            if( dom[i] == 0 ) break;
        }
#endif
    }
    for( k = 0; k < NR; ++k ) if( level[k] < best ) best = level[k];
#if OP == 0
    ret = StringChunk_Domain_Match(&sc, dom, in.withhash ? &hv : NULL, &data, (DataCompare)acceptable, &sc);
#elif OP == 1
    ret = StringChunk_Domain_Match(&sc, dom, in.withhash ? &hv : NULL, NULL, NULL, NULL);
#elif OP == 2
    ret = StringChunk_Domain_Match_WildCardRandom(&sc, dom, in.withhash ? &hv : NULL, &data, (DataCompare)acceptable, &sc);
#elif OP == 3
    ret = StringChunk_Match(&sc, dom, in.withhash ? &hv : NULL, &data, (DataCompare)acceptable, &sc);
#else
    ret = StringChunk_Match_Exactly(&sc, dom, in.withhash ? &hv : NULL, &data, (DataCompare)acceptable, &sc);
#endif
    CHECK(!!ret == (best < 99), "a name matches exactly when it, a parent domain or a pattern is listed and acceptable");
#if OP != 1
    if( ret )
    {
        for( k = 0; k < NR; ++k ) if( level[k] == best && (data == &dat0 ? dat0 : data == &dat1 ? dat1 : data == &dat2 ? dat2 : -1) == k ) got = k;
        CHECK(got >= 0, "the closest acceptable rule wins");
        REACH("match");
    } else REACH("no match");
#else
    if( ret ) REACH("match"); else REACH("no match");
#endif
}

void harness(void)
{
    VP_LOAD();
    switch( in.d ) {
    case 0: run("", "a", "b", "*", 2); break;
    case 1: run("", "*", "a.b", ".a", 0); break;
    case 2: run("a.b", "a.b", "b", "*", 0); break;
    case 3: run("a.b", "b", "a.b", "a.b", 3); break;
    case 4: run("a.b", ".a.b", ".b", "a", 1); break;
    case 5: run("a.b", "b", "b", "?.b", 2); break;
    case 6: run("ab.b.a", "a", "b.a", "*.a", 0); break;
    case 7: run("ab.b.a", "b.a", "a", "ab.b.a", 3); break;
    case 8: run("ab.b.a", "a", "a", "b", 1); break;
    case 9: run("ab.b.a", "*", "*.a", "*", 0); break;
    case 10: run("ab.b.a", "*", "ab.*", "a[b", 0); break;
    case 11: run("aa", "a", "aaa", "a.aa", 3); break;
    case 12: run("aa", "a?", "*", "a", 0); break;
    case 13: run("aa", "a?", "a?", "*", 0); break;
    case 14: run("b.a", ".a", "b.a", "*", 2); break;
    case 15: run("a.b.c.d.e.f.g.h.i", "i", "h.i", "g.h", 0); break;
    case 16: run("a.b.c.d.e.f.g.h.i", "c.d.e.f.g.h.i", "c.d.e.f.g.h.i", "b.c.d.e.f.g.h", 3); break;
    case 17: run("a.b.c.d.e.f.g.h.i", "*.i", "e.f.g.h.i", "x.h.i", 2); break;
    case 18: run("aaaaaaaaaaaaaaaaaaaa.b", "aaaaaaaaaaaaaaaaaaaa.b", "aaaaaaaaaaaaaaaaaaa.b", "b", 1); break;
    case 19: run("xa.b", "a.b", "x", "b", 2); break;
    case 20: run("a.b", "a.b.", "xa.b", "a.b.c", 2); break;
    case 21: run("a.b", "b", "*", "*", 0); break;
    default: run("b.b", "b", "b.b", "?.b", 2); break;
    }
}
