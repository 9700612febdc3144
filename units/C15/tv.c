/*UNIT
{"kind":"proof","functions":["Tv_Subtract","Tv_Comapre"],"internal":true,"havoc":["LinkedQueue_Init","LinkedQueueIterator_Init","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","2"],"cost":1,"timeout":100}
*/
/* Times are compared and taken off each other as the times they are. */
#include "vp.h"
#include "timedtask.c"
typedef struct { int as, au, bs, bu; } IN;
VP_INPUTS(IN)
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int LinkedQueue_Init(LinkedQueue *l, int d, int (*c)(const void *, const void *)){ return 0; }
int LinkedQueueIterator_Init(LinkedQueueIterator *i, LinkedQueue *l){ return -1; }
void harness(void)
{
    struct timeval a, b; int c, r;
    VP_LOAD();
    ASSUME(in.as >= 0 && in.bs >= 0 && in.au >= 0 && in.au < 1000000 && in.bu >= 0 && in.bu < 1000000);
    a.tv_sec = in.as; a.tv_usec = in.au; b.tv_sec = in.bs; b.tv_usec = in.bu;
    c = Tv_Comapre(&a, &b);
    CHECK((c > 0) == (in.as > in.bs || (in.as == in.bs && in.au > in.bu)), "the longer time is the longer");
    CHECK((c == 0) == (in.as == in.bs && in.au == in.bu), "the same time is the same");
    r = Tv_Subtract(&a, &b);
    CHECK(a.tv_sec >= 0 && a.tv_usec >= 0 && a.tv_usec < 1000000, "what is left is a valid time");
    CHECK(b.tv_sec == in.bs && b.tv_usec == in.bu, "what is taken off stays");
    if( c <= 0 ){ CHECK(a.tv_sec == 0 && a.tv_usec == 0, "nothing is left when it is over"); REACH("over"); }
    else { long d = a.tv_usec + b.tv_usec, s = a.tv_sec + b.tv_sec; if( d >= 1000000 ){ d -= 1000000; s += 1; } CHECK(s == in.as && d == in.au, "what is left is the difference"); REACH("left"); }
}
