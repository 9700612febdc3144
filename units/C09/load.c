/*UNIT
{"kind":"bounded","bound":"up to 2 blocked addresses, 2 pairs of substitutes (and an odd one), files of up to 3 lines of listed shapes; any failures of the callees",
 "functions":["IpMiscMapping_Load","IPMisc_Init","IPMisc_AddBlockFromString","IPMisc_AddSubstituteFromString","LoadIPSubstitutingFromFile","IpMiscMapping_Free"],
 "link":[],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","IpChunk_Find","IpChunk_Init","IpChunk_Add","IpChunk_Free","Log_Print","Log_DebugOn","ConfigGetStringList","ConfigGetBoolean","StringListIterator_Init","IPv6AddressToNum","IPv4AddressToNum","ExpandPathTo","ReadLine","ReadLine_GoToNextLine"],
 "cbmc":["--unwind","34","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200,
 "trusted":["assumed contracts: address set (C10), address text (C14), configuration (C19), line reader","rwlock, fopen, fclose"]}
*/
/* Each BlockIP entry blocks that address, each IPSubstituting pair (also in
   files) substitutes the first address by the second; a reload replaces the
   whole set at once, a failed one keeps the old. */
#include "vp.h"
#include <string.h>
#include "ipmisc.c"
typedef struct { unsigned char sel; _Bool neg, initfail, iterfail, path, nofile; } IN;
VP_INPUTS(IN)
static IPMisc *old; static int locked, nlist, pos, ended, nadd, nfree, nopen, linepos, mustlock;
static char freed_cur, block_list, sub_list, file_list;
static const char *b_items[3], *s_items[5], *f_items[2], *lines[4]; static int long_line;
static int has_b, has_s, has_f;
static struct { const char *ip; int type; char d[16]; int len; } got[8];
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ CHECK(!locked, "the lock is taken once"); locked = 1; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ CHECK(0, "replacing the rules takes the exclusive lock"); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ CHECK(locked, "released when held"); locked = 0; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp){ return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p){ return -1; }
BOOL IpChunk_Find(IpChunk *c, unsigned char *ip, int n, int *type, const char **data){ return FALSE; }
int IpChunk_Init(IpChunk *c){ return in.initfail ? -1 : 0; }
void IpChunk_Free(IpChunk *c){ nfree++; if( old != NULL && c == &old->c ) { CHECK(locked, "the old rules go under the lock only"); freed_cur = 1; } }
int IpChunk_Add(IpChunk *c, const char *ip, int type, const void *d, uint32_t l)
{
    CHECK(old == NULL || c != &old->c, "the rules in use are not changed"); CHECK(nadd < 8, "no more rules than configured");
    got[nadd].ip = ip; got[nadd].type = type; got[nadd].len = l; if( d != NULL ) memcpy(got[nadd].d, d, l);
    nadd++; return 0;
}
int IPv4AddressToNum(const char *a, void *b){ memset(b, a[0], 4); return 4; }
int IPv6AddressToNum(const char *a, void *b){ memset(b, a[0], 16); return 16; }
StringList *ConfigGetStringList(ConfigFileInfo *i, const char *k)
{ return strcmp(k, "BlockIP") == 0 && has_b ? (void *)&block_list : strcmp(k, "IPSubstituting") == 0 && has_s ? (void *)&sub_list : strcmp(k, "IPSubstitutingFile") == 0 && has_f ? (void *)&file_list : NULL; }
BOOL ConfigGetBoolean(ConfigFileInfo *i, const char *k){ return strcmp(k, "BlockNegativeResponse") == 0 && in.neg ? TRUE : FALSE; }
static const char **cur;
static const char *it_next(StringListIterator *i){ CHECK(!ended, "a list is not read past its end"); if( cur[pos] == NULL ) return NULL; return cur[pos++]; }
int StringListIterator_Init(StringListIterator *i, StringList *l)
{
    pos = 0; ended = 0; cur = (void *)l == &block_list ? b_items : (void *)l == &sub_list ? s_items : f_items;
    i->Next = it_next;
    return in.iterfail ? -1 : 0;
}
static char thefile;
FILE *fopen(const char *p, const char *m){ CHECK(strcmp(p, "/d/F") == 0 && m[0] == 'r', "the configured file, where it is"); nopen++; linepos = 0; if( in.nofile ) { nopen--; return NULL; } return (FILE *)&thefile; }
int fclose(FILE *f){ nopen--; return 0; }
int ExpandPathTo(char *b, int n, const char *s){ CHECK(s[0] == 'F' && n == 384, "expanded in its buffer"); strcpy(b, "/d/F"); return in.path ? -1 : 0; }
ReadLineStatus ReadLine(FILE *f, char *b, int n)
{
    if( lines[linepos] == NULL ) return READ_FAILED_OR_END;
    strcpy(b, lines[linepos]); linepos++;
    return linepos - 1 == long_line ? READ_TRUNCATED : READ_DONE;
}
ReadLineStatus ReadLine_GoToNextLine(FILE *f){ return READ_DONE; }
/* want: one letter per rule expected: b blocked, 4, 6 substituted; followed by the substitute's first character */
static void run(const char *want)
{
    int r, i, n = strlen(want) / 2, k, fail = in.initfail || (in.iterfail && (has_b || has_s || has_f)), nothing = !has_b && !has_s && !has_f && !in.neg;
    r = IpMiscMapping_Load();
    CHECK(!locked && nopen == 0, "no lock and no file stays held");
    if( nothing ) { CHECK(r == 0 && CurrIpMiscMapping == old, "nothing configured"); return; }
    if( fail ) { CHECK(r != 0 && CurrIpMiscMapping == old && !freed_cur, "a failed load keeps the rules in use"); REACH("failed"); return; }
    CHECK(r == 0 && CurrIpMiscMapping != old && CurrIpMiscMapping != NULL, "the new rules are in use");
    CHECK(CurrIpMiscMapping->BlockNegative == (in.neg ? TRUE : FALSE), "negative answers are withheld if configured");
    CHECK(old == NULL || freed_cur, "the old ones are gone");
    if( (in.path || in.nofile) && has_f ) { REACH("unreadable file"); return; }
    CHECK(nadd == n, "every rule, and no other");
    for( i = 0; i < n; ++i )
    {
        if( want[2 * i] == 'b' ) CHECK(got[i].type == IP_MISC_TYPE_BLOCK, "a blocked address");
        else
        {
            CHECK(got[i].type == IP_MISC_TYPE_SUBSTITUTE && got[i].len == (want[2 * i] == '4' ? 4 : 16), "a substitute of the address's family");
            for( k = 0; k < got[i].len; ++k ) CHECK(got[i].d[k] == want[2 * i + 1], "the second address replaces the first");
        }
    }
    REACH("loaded");
}
void harness(void)
{
    VP_LOAD();
    long_line = -1;
    if( in.sel & 64 ) { old = malloc(sizeof(IPMisc)); ASSUME(old != NULL); CurrIpMiscMapping = old; }
    switch( in.sel & 63 )
    {
    case 0: run(""); break;
    case 1: has_b = 1; b_items[0] = "1.1"; b_items[1] = "2::/9"; run("b.b."); CHECK(nadd < 2 || (got[0].ip == b_items[0] && got[1].ip == b_items[1]), "as written"); break;
    case 2: has_s = 1; s_items[0] = "1.1"; s_items[1] = "2.2"; s_items[2] = "3::1"; s_items[3] = "4::2"; run("4264"); CHECK(nadd < 2 || (got[0].ip == s_items[0] && got[1].ip == s_items[2]), "as written"); break;
    case 3: has_s = 1; s_items[0] = "1.1"; s_items[1] = "2.2"; s_items[2] = "3.1"; run("42"); break;
    case 4: has_f = 1; f_items[0] = "F"; lines[0] = "1.1 2.2"; lines[1] = " 3::1 \t 5::6 "; lines[2] = "7.7"; run("4265"); break;
    case 5: has_f = 1; f_items[0] = "F"; lines[0] = "1.1 8.2"; lines[1] = "3.1 9.9"; lines[2] = "4.4 7.7 x"; long_line = 1; run("4847"); break;
    default: has_b = has_s = has_f = 1; b_items[0] = "1.1"; s_items[0] = "1.1"; s_items[1] = "2.2"; f_items[0] = "F"; lines[0] = "::3\t::4"; run("b.426:"); break;
    }
}
