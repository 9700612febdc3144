/*UNIT
{"kind":"bounded","bound":"AppendHosts and a hosts file of up to 3 lines; the rest unbounded",
 "functions":["StaticHosts_Init","StaticHosts_GetCName","StaticHosts_TypeExisting","StaticHosts_Try","DynamicHosts_Load","DynamicHosts_GetCName","DynamicHosts_TypeExisting","DynamicHosts_Try","DynamicHosts_ContainerCleanup"],
 "link":[],"havoc":["HostsContainer_Init","HostsUtils_GetCName","HostsUtils_TypeExisting","HostsUtils_Try","ConfigGetStringList","StringListIterator_Init","ReadLine","ReadLine_GoToNextLine","Log_Print","Log_DebugOn","GetFromInternet_MultiFiles","Execute","Filter_Update","IpMiscMapping_Update","Modules_Update","ConfigGetInt32","ConfigGetRawString","ExpandPathTo","FileIsReadable","TimedTask_Add","FreeCharPtrArray"],
 "variants":[{"name":"static","defines":["STATIC"]},{"name":"dynamic","defines":["DYNAMIC"]}],
 "cbmc":["--unwind","8","--unwindset","strcmp.0:30"],"cost":4,"timeout":200,
 "trusted":["assumed contracts: container (unit container), answers (unit try), line reader (C19)","fopen, fclose, locks, atexit"]}
*/
/* Where hosts entries come from, and that a reload replaces them as a whole. */
#include "vp.h"
#include <string.h>
typedef struct { _Bool nolist, itfail, cfail, mfail, ffail, old, loaded, found; unsigned char n, trunc; int res; } IN;
VP_INPUTS(IN)
#ifdef STATIC
#include "statichosts.c"
#else
#include "utils.h"
#undef SafeMalloc
#undef SafeFree
static void *vp_malloc(size_t n);
static void vp_free(void *p);
#define SafeMalloc vp_malloc
#define SafeFree(p) do { vp_free(p); (p) = NULL; } while( 0 )
#include "dynamichosts.c"
#endif
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
static struct { IHeader h; char e[16]; } msg;
static HostsContainer *cur; static int depth, wdepth, nutil, nload, nfreed, ninit; static char bufn[8];
static HostsContainer c_old, c_new;
int HostsUtils_GetCName(const char *d, char *b, HostsContainer *c){ CHECK(c == cur && d == msg.h.Domain && b == bufn, "asked of the current entries"); nutil++;
#ifdef DYNAMIC
    CHECK(depth == 1, "under the lock");
#endif
    return in.res; }
BOOL HostsUtils_TypeExisting(HostsContainer *c, const char *d, HostsRecordType t){ CHECK(c == cur && d == msg.h.Domain && t == HOSTS_TYPE_A, "asked of the current entries"); nutil++;
#ifdef DYNAMIC
    CHECK(depth == 1, "under the lock");
#endif
    return in.found != 0; }
HostsUtilsTryResult HostsUtils_Try(MsgContext *m, int n, HostsContainer *c){ CHECK(c == cur && (void *)m == (void *)&msg && n == 99, "asked of the current entries"); nutil++;
#ifdef DYNAMIC
    CHECK(depth == 1, "under the lock");
#endif
    return in.res; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ CHECK(depth == 0 && wdepth == 0, "not taken twice"); wdepth++; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ CHECK(depth == 0 && wdepth == 0, "not taken twice"); depth++; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ CHECK(depth + wdepth == 1, "taken"); depth = wdepth = 0; return 0; }
static char line_buf[3]; static int pos, trunc_lines, skipped, kept;
static HostsRecordType h_load(HostsContainer *c, const char *l)
{
#ifdef STATIC
    CHECK(c == &MainStaticContainer && l == line_buf + nload, "each line once, in order");
#else
    CHECK(c == &c_new && depth + wdepth == 0 && kept == nload + 1 && pos > 0 && !(in.trunc >> (pos - 1) & 1), "each whole line into the new entries");
#endif
    nload++; return HOSTS_TYPE_A;
}
static void h_free(HostsContainer *c){ nfreed++; CHECK(c == &c_old && wdepth == 1, "the old entries go, under the lock"); }
int HostsContainer_Init(HostsContainer *c){ ninit++; if( in.cfail ) return -1; c->Load = h_load; c->Free = h_free; return 0; }
int atexit(void (*f)(void)){ return 0; }
#ifdef STATIC
static StringList sl;
StringList *ConfigGetStringList(ConfigFileInfo *i, const char *k){ CHECK(strcmp(k, "AppendHosts") == 0, "the option"); return in.nolist ? NULL : &sl; }
static const char *sl_next(StringListIterator *i){ return pos < in.n ? &line_buf[pos++] : NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l){ i->Next = sl_next; return in.itfail ? -1 : 0; }
#else
static int fopened, fclosed, smfreed;
FILE *fopen(const char *p, const char *m){ CHECK(p == File, "the hosts file"); if( in.ffail ) return NULL; fopened++; return (FILE *)&pos; }
int fclose(FILE *f){ CHECK(f == (FILE *)&pos, "the file"); fclosed++; return 0; }
static void *vp_malloc(size_t n){ CHECK(n == sizeof(HostsContainer), "a container"); return in.mfail ? NULL : &c_new; }
static void vp_free(void *p){ CHECK(p == (in.cfail ? (void *)&c_new : (void *)&c_old) || p == NULL, "only what is no longer used"); smfreed++; }
ReadLineStatus ReadLine(FILE *f, char *b, int n)
{ CHECK(n == 320 && pos == kept + skipped, "whole lines"); if( pos >= in.n ) return READ_FAILED_OR_END; if( in.trunc >> pos & 1 ) { pos++; trunc_lines++; return READ_TRUNCATED; } pos++; kept++; return READ_DONE; }
ReadLineStatus ReadLine_GoToNextLine(FILE *f){ skipped++; return READ_DONE; }
#endif
int harness(void)
{
    BOOL up;
    VP_LOAD();
    ASSUME(in.n <= 3);
    msg.h.Domain[0] = 'q';
#ifdef STATIC
    int r = StaticHosts_Init(NULL);
    up = !in.cfail && !in.nolist && !in.itfail; cur = &MainStaticContainer;
    CHECK((r == 0) == up, "loading succeeds when there are entries to load");
    CHECK(nload == (up ? in.n : 0), "every line");
    if( StaticHosts_GetCName(msg.h.Domain, bufn) == 0 ) CHECK(up && in.res == 0, "an alias from the entries");
    else CHECK(!up || in.res != 0, "an alias from the entries");
    CHECK(StaticHosts_TypeExisting(msg.h.Domain, HOSTS_TYPE_A) == (up && in.found), "an entry exists when the container has it");
    CHECK(StaticHosts_Try((MsgContext *)&msg, 99) == (up ? in.res : HOSTSUTILS_TRY_NONE), "answered from the entries");
    CHECK(nutil == (up ? 3 : 0), "once each");
#else
    int r;
    if( in.old ) { c_old.Load = h_load; c_old.Free = h_free; MainDynamicContainer = &c_old; }
    r = DynamicHosts_Load();
    up = !in.ffail && !in.mfail && !in.cfail;
    CHECK((r == 0) == up && fopened == fclosed && depth + wdepth == 0, "success exactly when the file was read; file and lock given back");
    CHECK(MainDynamicContainer == (up ? &c_new : in.old ? &c_old : NULL), "the new entries replace the old as a whole; after a failure the old stay");
    CHECK(nfreed == (up && in.old), "the old are freed exactly when replaced");
    if( up ) { CHECK(nload == kept && skipped == trunc_lines && pos == in.n, "every whole line"); REACH("loaded"); }
    cur = (HostsContainer *)MainDynamicContainer; up = cur != NULL;
    if( DynamicHosts_GetCName(msg.h.Domain, bufn) == 0 ) CHECK(up && in.res == 0, "an alias from the entries");
    else CHECK(!up || in.res != 0, "an alias from the entries");
    CHECK(DynamicHosts_TypeExisting(msg.h.Domain, HOSTS_TYPE_A) == (up && in.found), "an entry exists when the container has it");
    CHECK(DynamicHosts_Try((MsgContext *)&msg, 99) == (up ? in.res : HOSTSUTILS_TRY_NONE), "answered from the entries");
    CHECK(nutil == (up ? 3 : 0) && depth == 0, "once each");
#endif
    if( up ) REACH("entries"); else REACH("no entries");
    return 0;
}
