/*UNIT
{"kind":"bounded","bound":"one line of any of five options, an alias or an unknown one, its value of the listed forms, in up to three pieces; any type-compatible strategy and earlier value",
 "functions":["ConfigRead","GetOptionOfAInfo","ParseInt32","ParseBoolean","GetBooleanValueFromString","ParseString","TrimPath","ConfigGetInt32","ConfigGetBoolean","SplitNameAndValue","StrNpbrk","StrRNpbrk","StrToLower"],
 "variants":[{"name":"int-no","defines":["K=0","SEP=1","VAL=0","STRAT=0","TR=0","UP=0"]},{"name":"int","defines":["K=0","SEP=1","VAL=1","STRAT=1","TR=1","UP=0"]},{"name":"int-neg","defines":["K=0","SEP=0","VAL=1","STRAT=3","TR=0","UP=0"]},{"name":"bool0","defines":["K=1","SEP=0","VAL=0","STRAT=0","TR=0","UP=0"]},{"name":"bool1","defines":["K=1","SEP=1","VAL=1","STRAT=1","TR=0","UP=0"]},{"name":"bool2","defines":["K=1","SEP=0","VAL=2","STRAT=2","TR=0","UP=0"]},{"name":"bool3","defines":["K=1","SEP=1","VAL=3","STRAT=3","TR=1","UP=0"]},{"name":"bool4","defines":["K=1","SEP=0","VAL=4","STRAT=0","TR=0","UP=0"]},{"name":"bool5","defines":["K=1","SEP=1","VAL=5","STRAT=1","TR=0","UP=0"]},{"name":"bool6","defines":["K=1","SEP=0","VAL=6","STRAT=2","TR=0","UP=0"]},{"name":"bool7","defines":["K=1","SEP=1","VAL=7","STRAT=3","TR=0","UP=0"]},{"name":"string0","defines":["K=2","SEP=0","VAL=0","STRAT=0","TR=0","UP=0"]},{"name":"alias0","defines":["K=4","SEP=0","VAL=0","STRAT=0","TR=5","UP=0"]},{"name":"string1","defines":["K=2","SEP=1","VAL=1","STRAT=1","TR=5","UP=0"]},{"name":"alias1","defines":["K=4","SEP=1","VAL=1","STRAT=1","TR=0","UP=0"]},{"name":"string2","defines":["K=2","SEP=0","VAL=2","STRAT=2","TR=7","UP=0"]},{"name":"alias2","defines":["K=4","SEP=0","VAL=2","STRAT=2","TR=0","UP=1"]},{"name":"string3","defines":["K=2","SEP=1","VAL=3","STRAT=3","TR=1","UP=0"]},{"name":"alias3","defines":["K=4","SEP=1","VAL=3","STRAT=3","TR=3","UP=0"]},{"name":"string4","defines":["K=2","SEP=0","VAL=0","STRAT=0","TR=3","UP=0"]},{"name":"alias4","defines":["K=4","SEP=1","VAL=0","STRAT=3","TR=0","UP=1"]},{"name":"path0","defines":["K=3","SEP=0","VAL=0","STRAT=0","TR=0","UP=0"]},{"name":"path1","defines":["K=3","SEP=1","VAL=1","STRAT=2","TR=0","UP=0"]},{"name":"path2","defines":["K=3","SEP=1","VAL=1","STRAT=1","TR=1","UP=0"]},{"name":"unknown","defines":["K=5","SEP=0","VAL=0","STRAT=0","TR=1","UP=0"]},{"name":"unknown0","defines":["K=5","SEP=0","VAL=0","STRAT=0","TR=0","UP=0"]}],
 "link":["utils.c"],"havoc":["StringChunk_Match_NoWildCard","ReadLine","ReadLine_Continue","ReadLine_GoToNextLine","Log_Print","Log_DebugOn"],
 "trusted":["StringChunk_Match_NoWildCard finds the entry of a name (C06/C14)","sscanf(\"%d\") reads a decimal number"],
 "assumes":["StringList members Clear, Add, AppendLast, TrimAll do what their names say: they record what they are given"],
 "cbmc":["--unwind","12","--unwindset","ConfigRead.0:3,GetOptionOfAInfo:3,ParseString.0:4,memmove.0:12,strcpy.0:12,strncpy.0:9,vp_put.0:12","--max-field-sensitivity-array-size","2100"],"cost":10,"timeout":200}
*/
/* A line sets the option it names, and no other, to the value it gives; whatever of it
   does not fit in one reading belongs to it or is skipped. */
#include "vp.h"
#include <string.h>
#include <stdio.h>
#include "stubs/ctype_c.h"
static int vp_sscanf(const char *s, const char *f, int *v);
#undef sscanf
#define sscanf vp_sscanf
#include "utils.h"
#define ExpandPath vp_expand
int vp_expand(char *s, int n);
#include "readconfig.c"
#undef sscanf
char *strstr(const char *h, const char *n)
{ for( ; ; ++h ) { int k = 0; while( n[k] != 0 && h[k] == n[k] ) ++k; if( n[k] == 0 ) return (char *)h; if( *h == 0 ) return 0; } }
char *strpbrk(const char *h, const char *n)
{ for( ; *h != 0; ++h ) { int k = 0; while( n[k] != 0 && h[0] != n[k] ) ++k; if( n[k] != 0 ) return (char *)h; } return 0; }
typedef struct { _Bool status, b0; unsigned char c1, c2; int i0, ib; } IN;
VP_INPUTS(IN)
static int vp_sscanf(const char *s, const char *f, int *v)
{
    int n = 0, neg = 0, any = 0;
    CHECK(strcmp(f, "%d") == 0, "a decimal number is read");
    while( *s == ' ' ) ++s;
    if( *s == '-' ){ neg = 1; ++s; } else if( *s == '+' ) ++s;
    for( ; *s >= '0' && *s <= '9'; ++s ){ n = n * 10 + (*s - '0'); any = 1; }
    if( !any ) return 0;
    *v = neg ? -n : n;
    return 1;
}
static ConfigOption opt[6];      /* i, b, s, p, a(lias of s), B (a second yes or no) */
static int line, inside, pieces, skipped;
/* the string list of s and p, as told */
static char rec[4]; static int nrec;
static char val[4][12]; static const char *del[4];
static StringList *who;
static void vp_put(StringList *l, char what, const char *s, const char *d)
{
    CHECK(nrec < 4, "no more than the value");
    CHECK(who == NULL || who == l, "one option's value only");
    who = l; rec[nrec] = what;
    if( s ) strcpy(val[nrec], s); else val[nrec][0] = '\0';
    del[nrec++] = d;
}
static int cleared, trimmed; static StringList *lists[2];
static void l_clear(StringList *l){ if( !(K == 4 && UP) ) CHECK(nrec == 0, "cleared before anything is added"); cleared = 1; CHECK(who == NULL || who == l, "one option's value only"); who = l; }
static void *l_add(StringList *l, const char *s, const char *d){ vp_put(l, 'A', s, d); return l; }
static int l_append(StringList *l, const char *s, const char *d){ vp_put(l, '+', s, d); return 1; }
static void l_trim(StringList *l, const char *g){ CHECK(who == l && g == NULL, "what was set is trimmed"); trimmed = 1; }
BOOL StringChunk_Match_NoWildCard(StringChunk *dl, const char *Str, const uint32_t *h, void **Data, DataCompare cb, void *e)
{
    int i;
    if( Str[0] == '\0' || Str[1] != '\0' ) return FALSE;
    for( i = 0; i < 6; i++ ) if( Str[0] == "ibspaB"[i] ){ *Data = &opt[i]; return TRUE; }
    return FALSE;
}
static char text[14], want[14];
static ReadLineStatus piece(char *b)
{
    ++pieces;
    if( pieces == 1 && (TR & 2) ){ strcpy(b, "yy,"); return READ_TRUNCATED; }
    inside = 0;
    if( !(TR & 4) ) return READ_FAILED_OR_END;
    strcpy(b, "z"); return READ_DONE;
}
ReadLineStatus ReadLine(FILE *f, char *b, int n)
{
    CHECK(!inside, "the rest of a line is not taken for a line of its own");
    CHECK(n == 2048, "the buffer has its size");
    if( line++ ) return READ_FAILED_OR_END;
    strcpy(b, text);
    if( (TR & 1) ){ inside = 1; return READ_TRUNCATED; }
    return READ_DONE;
}
ReadLineStatus ReadLine_Continue(FILE *f, char *b, int n)
{
    CHECK(inside && n == 2048, "a line is only continued where it is not at its end");
    return piece(b);
}
ReadLineStatus ReadLine_GoToNextLine(FILE *f){ CHECK(inside, "only the rest of a line is skipped"); inside = 0; skipped = 1; return READ_DONE; }
int vp_expand(char *s, int n){ CHECK(n > 0 && n <= 2048, "a path has the rest of the buffer"); return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
void harness(void)
{
    static ConfigFileInfo info;
    static const char *names = "ibspau";
    int i, r, expi = 0, expb = 0, k = 0;
    MultilineStrategy st;
    VP_LOAD();
    ASSUME(in.c1 < 10 && in.c2 < 10 && 1);
    ASSUME(in.i0 > -1000 && in.i0 < 1000);
    st = (MultilineStrategy)STRAT;
#if K == 0
    ASSUME(st != STRATEGY_APPEND);
#endif
    for( i = 0; i < 6; i++ )
    {
        opt[i].Strategy = st; opt[i].Status = in.status ? STATUS_SPECIAL_VALUE : STATUS_DEFAULT_VALUE;
        opt[i].Delimiters = (char *)",";
    }
    opt[0].Type = TYPE_INT32; opt[0].Holder.INT32 = in.i0;
    opt[1].Type = TYPE_BOOLEAN; opt[1].Holder.boolean = in.b0 ? 1 : 0;
    opt[5].Type = TYPE_BOOLEAN; opt[5].Holder.boolean = in.b0 ? 1 : 0;
    for( i = 2; i < 4; i++ )
    {
        opt[i].Type = i == 2 ? TYPE_STRING : TYPE_PATH;
        opt[i].Holder.str.Clear = l_clear; opt[i].Holder.str.Add = l_add;
        opt[i].Holder.str.AppendLast = l_append; opt[i].Holder.str.TrimAll = l_trim;
    }
    opt[4].Type = TYPE_ALIAS; opt[4].Holder.Aliasing.Target = (char *)"s";
    opt[4].Holder.Aliasing.Prepending = UP ? (char *)"pre" : NULL; opt[4].Delimiters = SEP ? (char *)";" : NULL;
    /* the line */
    text[k++] = names[K]; text[k++] = SEP ? '=' : ' ';
    if( SEP == 0 && K != 0 ) text[k++] = ' ';
#if K == 0
    if( VAL == 0 ){ text[k++] = 'x'; expi = in.i0; }
    else {
        if( (SEP == 0) ) text[k++] = '-';
        text[k++] = '0' + in.c1; text[k++] = '0' + in.c2;
        expi = in.c1 * 10 + in.c2; if( (SEP == 0) ) expi = -expi;
    }
#elif K == 1
    { static const char *f[] = { "0", "1", "false", "FALSE", "True", "No", "yes", "xx" };
      static const int e[] = { 0, 1, 0, 0, 1, 0, 1, 0 };
      strcpy(text + k, f[VAL]); expb = e[VAL];
      while( text[k] != '\0' ) ++k; }
#else
    { int q = k; if( K == 3 && (VAL & 1) ) text[k++] = '"';
      text[k++] = 'v'; if( VAL & 1 ) text[k++] = ','; text[k++] = 'w';
      text[k] = '\0'; strcpy(want, text + q + (K == 3 && (VAL & 1)));
      if( K == 3 && (VAL & 1) ) text[k++] = '"'; }
#endif
    text[k] = '\0';
    r = ConfigRead(&info);
    CHECK(line == 2 && !inside, "all of the text is read");
    if( K != 0 ) CHECK(ConfigGetInt32(&info, "i") == in.i0, "a number that is not named keeps its value");
    if( K != 1 ) CHECK(!!ConfigGetBoolean(&info, "b") == (in.b0 ? 1 : 0), "a yes or no that is not named keeps its value");
    CHECK(!!ConfigGetBoolean(&info, "B") == (in.b0 ? 1 : 0), "another option keeps its value");
    for( i = 0; i < 6; i++ ) if( i != (K == 4 ? 2 : K) ) CHECK(opt[i].Status == (in.status ? STATUS_SPECIAL_VALUE : STATUS_DEFAULT_VALUE) && opt[i].Strategy == st, "what is not named is left alone");
#if K == 5
    CHECK(r == 0 && nrec == 0 && who == NULL, "an unknown option changes nothing");
    
#else
    CHECK(r == 1, "the line is counted");
#endif
#if K == 0
    CHECK(ConfigGetInt32(&info, "i") == expi, "the number is what the line says");
    if( (TR & 1) ) CHECK(skipped, "the rest of the line is skipped");
    
#elif K == 1
    if( st == STRATEGY_APPEND ) CHECK(!!ConfigGetBoolean(&info, "b") == (expb || (in.b0 ? 1 : 0)), "one yes is enough");
    else CHECK(!!ConfigGetBoolean(&info, "b") == expb, "yes or no as the line says");
    
#elif K == 2 || K == 4
    {
        int n = 0; const char *d = K == 4 && SEP ? ";" : ",";
        int keep = st == STRATEGY_APPEND;
        CHECK(who == &opt[2].Holder.str, "it is the option named that is set");
        if( !(K == 4 && UP) )
        {
            CHECK(cleared == !keep, "an earlier value stays only where values are appended");
            CHECK(nrec >= 1 && rec[0] == 'A' && strcmp(val[0], want) == 0 && strcmp(del[0], d) == 0, "the value is what the line says");
            n = 1;
            if( (TR & 1) )
            {
                if( (TR & 2) ){ CHECK(nrec > n && rec[n] == '+' && strcmp(val[n], "yy,") == 0 && strcmp(del[n], d) == 0, "what follows of the line is appended"); ++n; }
                if( (TR & 4) ){ CHECK(nrec > n && rec[n] == '+' && strcmp(val[n], "z") == 0 && strcmp(del[n], d) == 0, "up to its end"); ++n; }
                
            }
            CHECK(nrec == n && trimmed, "and nothing else");
        }
        else if( st == STRATEGY_APPEND || (st == STRATEGY_APPEND_DISCARD_DEFAULT && !in.status) )
        {
            CHECK(rec[0] == 'A' && strcmp(val[0], "pre") == 0 && rec[1] == 'A' && strcmp(val[1], want) == 0, "the alias puts its word before the value");
        }
        CHECK(opt[2].Status == STATUS_SPECIAL_VALUE, "the option is set");
        if( st == STRATEGY_APPEND_DISCARD_DEFAULT && !in.status ) CHECK(opt[2].Strategy == STRATEGY_APPEND, "only the default is discarded");
        else CHECK(opt[2].Strategy == st, "its way of repeating stays");
        
    }
#elif K == 3
    if( (TR & 1) ){ CHECK(nrec == 0 && skipped, "a path that does not fit is not set");  }
    else
    {
        CHECK(nrec == 1 && rec[0] == 'A' && who == &opt[3].Holder.str && strcmp(val[0], want) == 0 && del[0][0] == '\0', "the path is what the line says, in one piece");
        CHECK(cleared == (st != STRATEGY_APPEND), "an earlier path stays only where paths are appended");
        
    }
#endif
    REACH("to the end");
}
