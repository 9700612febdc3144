/*UNIT
{"kind":"bounded","bound":"any command word of up to 15 characters, any numbers, up to 2 rules in a list; rule text missing any of its three parts",
 "functions":["CacheTtlCrtl_Add","CacheTtlCrtl_Add_From_String","CacheTtlCrtl_Add_From_StringList","CacheTtlCrtl_Get"],
 "link":["cachettlcrtl.c"],"havoc":["StringChunk_Init","StringChunk_Free","StringChunk_Add_Domain","StringChunk_Domain_Match","StringListIterator_Init","Log_Print"],
 "cbmc":["--unwind","20"],"cost":10,"timeout":200,
 "trusted":["sscanf: blank-separated words with their widths, then decimal numbers","assumed contract of the rule list (C08)"]}
*/
/* A CacheControl rule means what it says: command word, infection marks and
   numbers are those of the text; a rule without a name or with an unknown
   command is not added. */
#include "vp.h"
#include <string.h>
#include "cachettlcrtl.h"
#include "logs.h"
typedef struct { char cmd[16]; unsigned char words, n; uint32_t a, b; unsigned char nnum; _Bool found; } IN;
VP_INPUTS(IN)
static const char rule[] = "R";         /* opaque text of the rule */
/* words: a rule has in.words of its three words; the word of the numbers is "#",
   what a scan for numbers finds in it is in.nnum numbers in.a, in.b */
int sscanf(const char *s, const char *f, ...)
{
    __builtin_va_list ap;
    int done = 0;
    __builtin_va_start(ap, f);
    if( strncmp(f, "%u", 2) == 0 )
    {
        if( s[0] == '#' && in.nnum >= 1 ) { *__builtin_va_arg(ap, uint32_t *) = in.a; done = 1; }
        if( done && f[2] == 'x' && in.nnum >= 2 ) { *__builtin_va_arg(ap, uint32_t *) = in.b; done = 2; }
    } else {
        CHECK(s == rule, "the rule is read");
        if( in.words >= 1 ) { strcpy(__builtin_va_arg(ap, char *), "d.e"); done = 1; }
        if( in.words >= 2 ) { memcpy(__builtin_va_arg(ap, char *), in.cmd, 16); done = 2; }
        if( in.words >= 3 ) { char *p = __builtin_va_arg(ap, char *); p[0] = '#'; p[1] = 0; done = 3; }
        if( in.words == 0 ) done = -1;
    }
    __builtin_va_end(ap);
    return done;
}
static CacheTtlCtrl ctl;
static int nadd; static CtrlContent got;
int StringChunk_Add_Domain(StringChunk *c, const char *d, const void *a, int l)
{
    CHECK(c == &ctl && strcmp(d, "d.e") == 0, "the rule's domain");
    CHECK(l == sizeof(CtrlContent), "the whole rule is stored");
    got = *(const CtrlContent *)a; nadd++;
    return 0;
}
BOOL StringChunk_Domain_Match(StringChunk *c, const char *d, const uint32_t *h, void **data, DataCompare cb, void *e)
{
    CHECK(c == &ctl && cb == NULL && data != NULL, "the rules are searched");
    if( in.found ) *data = &got;
    return in.found ? TRUE : FALSE;
}
int StringChunk_Init(StringChunk *c, StringList *l){ return 0; }
void StringChunk_Free(StringChunk *c, BOOL l){ }
void Log_Print(const char *t, const char *f, ...){ }
static int pos;
static const char *nx(StringListIterator *i){ return pos < 2 && pos++ < in.n ? rule : NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l){ pos = 0; i->Next = nx; return 0; }

void harness(void)
{
    const char *w; int infection, state, ok, k; StringList sl;
    char cmd[18];
    VP_LOAD();
    for( k = 0; k < 16; ++k ) { ASSUME(in.cmd[k] != ' ' && in.cmd[k] != '\t' && in.cmd[k] != '\n'); cmd[k] = in.cmd[k]; }
    cmd[16] = cmd[17] = 0;
    ASSUME(in.cmd[15] == 0 && in.cmd[0] != 0 && in.words <= 3 && in.nnum <= 2 && in.n <= 2);
    w = cmd; infection = TTL_CTRL_INFECTION_AGGRESSIVLY;
    if( w[0] == '$' ) { if( w[1] == '$' ) { infection = TTL_CTRL_INFECTION_NONE; w += 2; } else { infection = TTL_CTRL_INFECTION_PASSIVLY; w++; } }
    ok = in.words >= 2; state = 0;
    if( strncmp(w, "orig", 4) == 0 ) state = TTL_STATE_ORIGINAL;
    else if( strncmp(w, "nocache", 7) == 0 ) state = TTL_STATE_NO_CACHE;
    else if( strncmp(w, "fixed", 5) == 0 ) state = TTL_STATE_FIXED;
    else if( strncmp(w, "vari", 4) == 0 ) state = TTL_STATE_VARIABLE;
    else ok = 0;
    CacheTtlCrtl_Add_From_StringList(&ctl, &sl);
    CHECK(nadd == (ok ? in.n : 0), "a rule is added exactly when it has a name and a known command");
    if( nadd )
    {
        uint32_t a = in.words == 3 && in.nnum >= 1 ? in.a : 0, b = in.words == 3 && in.nnum >= 2 ? in.b : 0;
        CHECK(got.State == state, "the command decides how times are computed");
        CHECK(got.Infection == infection, "the marks decide how the rule carries over to aliases");
        if( state == TTL_STATE_FIXED ) CHECK(got.Coefficient == 0 && got.Increment == a, "fixed: the given time whatever the record says");
        if( state == TTL_STATE_VARIABLE ) CHECK(got.Coefficient == a && got.Increment == b, "vari: the given multiple plus the given increment");
        REACH("added");
    }
    {
        const CtrlContent *r = CacheTtlCrtl_Get(&ctl, "x");
        CHECK(r == (in.found ? &got : NULL), "the rule of the closest listed domain is the one in force");
    }
    {   /* rules made from OverrideTTL / MultipleTTL */
        nadd = 0;
        CacheTtlCrtl_Add(&ctl, "d.e", TTL_STATE_FIXED, in.a, in.b, 1);
        CHECK(nadd == 1 && got.State == TTL_STATE_FIXED && got.Coefficient == 0 && got.Increment == in.b, "a fixed time does not depend on the record's");
        CacheTtlCrtl_Add(&ctl, "d.e", TTL_STATE_VARIABLE, in.a, in.b, 1);
        CHECK(nadd == 2 && got.State == TTL_STATE_VARIABLE && got.Coefficient == in.a && got.Increment == in.b, "a multiple keeps its numbers");
    }
    REACH("end");
}
