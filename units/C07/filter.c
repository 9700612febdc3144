/*UNIT
{"kind":"bounded","bound":"up to 2 disabled types, 2 disabled domains, 2 list files of up to 2 lines; any numbers, names, query types and rule-lookup outcomes; one reload",
 "functions":["Filter_Init","Filter_Update","Filter_Out"],
 "link":["filter.c"],"havoc":["Bst_Init","ConfigGetStringList","ConfigGetBoolean","StringListIterator_Init","InitChunk","StringChunk_Add_Domain","StringChunk_Free","StringChunk_Domain_Match","ReadLine","ReadLine_GoToNextLine","MsgContext_SendBackRefusedMessage","ShowRefusingMessage","DomainStatistic_Add","Log_Print"],
 "defines":["BSTC_MAX=2"],"cbmc":["--unwind","6","--unwindset","strcmp.0:20"],"cost":20,"timeout":300,
 "variants":[{"name":"start","defines":["RELOAD=0"]},{"name":"reload","defines":["RELOAD=1"]}],
 "trusted":["assumed contracts: search tree (C04), rule lists (C08), configuration and line reader (C19)","sscanf %d: any number or failure"]}
*/
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include "filter.h"
#include "stringchunk.h"
#include "readline.h"
#include "domainstatistic.h"
#include "logs.h"
#include "stubs/bst_contract.h"
typedef struct {
    unsigned char ntypes, ndom[2], nfile[2], nline[2]; int t[2]; _Bool tok[2];
    _Bool hastypes, hasdom[2], hasfile[2], openfail[2], dotrunc[2], reload, match[4];
    int type; uint32_t hash;
} IN;
VP_INPUTS(IN)
static int gen;                         /* 0: at start, 1: at the reload */
static int tcell0, tcell1;
static struct { IHeader h; char e[16]; } msg;
static ConfigFileInfo conf;

/* configuration */
static StringList ltypes, ldom, lfile;
static const char *const tname[2] = {"t0", "t1"}, *const dname[2] = {"d0", "d1"}, *const fname[2] = {"f0", "f1"};
static void lfree(StringList *l){ }
StringList *ConfigGetStringList(ConfigFileInfo *c, const char *k)
{
    CHECK(c == &conf, "the configuration in use is asked");
    ltypes.Free = ldom.Free = lfile.Free = lfree;
    if( strcmp(k, "DisabledType") == 0 ) return in.hastypes ? &ltypes : NULL;
    if( strcmp(k, "DisabledDomain") == 0 ) return in.hasdom[gen] ? &ldom : NULL;
    if( strcmp(k, "DisabledList") == 0 ) return in.hasfile[gen] ? &lfile : NULL;
    return NULL;
}
BOOL ConfigGetBoolean(ConfigFileInfo *c, const char *k){ return strcmp(k, "ReloadDisabledList") == 0 ? in.reload : 0; }
static int it_t, it_d, it_f;
static const char *nx_t(StringListIterator *i){ return it_t < in.ntypes ? tname[it_t++] : NULL; }
static const char *nx_d(StringListIterator *i){ return it_d < in.ndom[gen] ? dname[it_d++] : NULL; }
static const char *nx_f(StringListIterator *i){ return it_f < in.nfile[gen] ? fname[it_f++] : NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l)
{
    if( l == NULL ) return -1;
    if( l == &ltypes ) { it_t = 0; i->Next = nx_t; }
    else if( l == &ldom ) { it_d = 0; i->Next = nx_d; }
    else { CHECK(l == &lfile, "only configured lists are read"); it_f = 0; i->Next = nx_f; }
    return 0;
}
int sscanf(const char *s, const char *f, ...)
{
    __builtin_va_list ap;
    int k = s == tname[1];
    CHECK((s == tname[0] || s == tname[1]) && strcmp(f, "%d") == 0, "a type is read as a number");
    if( !in.tok[k] ) return 0;
    __builtin_va_start(ap, f);
    *__builtin_va_arg(ap, int *) = in.t[k];
    __builtin_va_end(ap);
    return 1;
}
/* list files */
static int fpos, fopened, fclosed, half;
static char ffile0, ffile1;
FILE *fopen(const char *n, const char *m)
{
    int k = n == fname[1];
    CHECK(n == fname[0] || n == fname[1], "a configured file is read");
    if( in.openfail[k] ) return NULL;
    fpos = 0; half = 0; fopened++;
    return (FILE *)(k ? &ffile1 : &ffile0);
}
int fclose(FILE *f){ fclosed++; return 0; }
ReadLineStatus ReadLine(FILE *f, char *b, int n)
{
    int k = f == (FILE *)&ffile1;
    CHECK(n >= 8, "room for a line");
    if( half ) { half = 0; b[0] = 'h'; b[1] = 0; return READ_DONE; }     /* the rest of a line that did not fit */
    if( fpos >= in.nline[k] ) return READ_FAILED_OR_END;
    b[0] = 'l'; b[1] = '0' + k; b[2] = '0' + fpos; b[3] = 0;
    if( fpos++ == 0 && in.dotrunc[k] ) { half = 1; return READ_TRUNCATED; }
    return READ_DONE;
}
ReadLineStatus ReadLine_GoToNextLine(FILE *f){ half = 0; return READ_DONE; }
/* rule lists */
static StringChunk *ck0, *ck1, *ck2, *ck3;   /* allocated: the code under contract frees them */
static int nck, dead[4], added[4][2], lines[4][2][2];
static int ck_of(StringChunk *c){ return c == NULL ? -1 : c == ck0 ? 0 : c == ck1 ? 1 : c == ck2 ? 2 : c == ck3 ? 3 : -1; }
int InitChunk(StringChunk **c)
{ if( *c != NULL ) return 0; ASSUME(nck < 4); *c = malloc(sizeof(StringChunk)); ASSUME(*c != NULL);
  if( nck == 0 ) ck0 = *c; else if( nck == 1 ) ck1 = *c; else if( nck == 2 ) ck2 = *c; else ck3 = *c;
  nck++; return 0; }
int StringChunk_Add_Domain(StringChunk *c, const char *d, const void *a, int l)
{
    int k = ck_of(c);
    CHECK(k >= 0 && !dead[k], "rules go into a live list");
    if( d == dname[0] ) added[k][0]++; else if( d == dname[1] ) added[k][1]++;
    else { CHECK(d[0] != 'h', "no part of an over-long line is taken for a domain"); CHECK(d[0] == 'l' && (d[1] == '0' || d[1] == '1') && (d[2] == '0' || d[2] == '1'), "only configured names are disabled"); lines[k][d[1] - '0'][d[2] - '0']++; }
    return 0;
}
void StringChunk_Free(StringChunk *c, BOOL l){ int k = ck_of(c); if( k >= 0 ){ CHECK(!dead[k], "freed once"); dead[k] = 1; } }
static int nrefused, nshow, nstat, lock, match_calls, matched_list = -1;
BOOL StringChunk_Domain_Match(StringChunk *c, const char *d, const uint32_t *h, void **data, DataCompare cb, void *e)
{
    int k = ck_of(c);
    CHECK(d == msg.h.Domain && (h == NULL || *h == in.hash), "the query's name is looked up");
    CHECK(lock == 1, "the list is read under its lock");
    match_calls++;
    if( c == NULL ) return FALSE;
    CHECK(k >= 0 && !dead[k], "a live list is read");
    matched_list = k;
    return in.match[k];
}
int MsgContext_SendBackRefusedMessage(MsgContext *c){ CHECK((void *)c == (void *)&msg, "this query is refused"); nrefused++; return 0; }
void ShowRefusingMessage(IHeader *h, const char *m){ nshow++; }
int DomainStatistic_Add(IHeader *h, StatisticType t){ CHECK(t == STATISTIC_TYPE_REFUSED, "counted as refused"); nstat++; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a){ return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l){ return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ lock++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ lock += 10; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ lock = lock >= 10 ? lock - 10 : lock - 1; return 0; }
int atexit(void (*f)(void)){ return 0; }

static void judge(int g)
{
    int i, j, r, cur = -1, distype = 0, want;
    for( i = 0; i < 4; ++i ) if( i < nck && !dead[i] ) { CHECK(cur < 0, "one list is in force"); cur = i; }
    CHECK((cur >= 0) == (in.hasdom[g] || in.hasfile[g]), "a list is in force exactly when one is configured");
    if( cur >= 0 )
    {
        for( i = 0; i < 2; ++i ) CHECK(added[cur][i] == (in.hasdom[g] && i < in.ndom[g]), "each DisabledDomain entry is in it, once");
        for( i = 0; i < 2; ++i ) for( j = 0; j < 2; ++j )
            CHECK(lines[cur][i][j] == (in.hasfile[g] && i < in.nfile[g] && !in.openfail[i] && j < in.nline[i] && !(j == 0 && in.dotrunc[i])), "each whole line of each DisabledList file is in it, once");
    }
    for( i = 0; i < 2; ++i ) if( in.hastypes && i < in.ntypes && in.tok[i] && in.t[i] == in.type ) distype = 1;
    msg.h.Type = in.type; msg.h.HashValue = in.hash; msg.h.Domain[0] = 'x';
    nrefused = nshow = nstat = 0;
    r = Filter_Out((MsgContext *)&msg);
    want = distype || (cur >= 0 && in.match[cur]);
    CHECK(!!r == want, "a query is refused exactly when its type or domain is disabled");
    CHECK(nrefused == want, "a refused query gets one refusal, another none");
    CHECK(nstat == want, "refusals are counted");
    CHECK(lock == 0, "no lock stays held");
    CHECK(msg.h.Type == in.type && msg.h.HashValue == in.hash && msg.h.Domain[0] == 'x', "the query is not changed");
    if( r ) REACH("refused"); else REACH("passed");
}
void harness(void)
{
    int i;
    VP_LOAD();
    ASSUME(in.ntypes <= 2 && in.type >= 0 && in.type <= 65535);
    for( i = 0; i < 2; ++i )
    {
        ASSUME(in.ndom[i] <= 2 && in.nfile[i] <= 2 && in.nline[i] <= 2);
        ASSUME(in.t[i] >= 0 && in.t[i] <= 65535);
    }
    bstc_elem[0] = &tcell0; bstc_elem[1] = &tcell1;
    Filter_Init(&conf);
    CHECK(fopened == fclosed && lock == 0, "files are closed, no lock stays held");
#if RELOAD
    gen = 1;
    Filter_Update();
    CHECK(fopened == fclosed && lock == 0, "files are closed, no lock stays held");
    judge(in.reload ? 1 : 0);
#else
    judge(0);
#endif
}
