/*UNIT
{"kind":"bounded","bound":"intervals below 2^18 milliseconds (thorough: any)","functions":["TimedTask_Add"],"havoc":["LinkedQueue_Init","LinkedQueueIterator_Init","Log_Print","Log_DebugOn"],
 "trusted":["write to a pipe"],"cbmc":["--unwind","2"],"defines":["LIM=0x40000"],"thorough":{"defines":["LIM=0x7fffffff"],"timeout":600},"cost":1,"timeout":100}
*/
/* A task is handed to the timer as it was asked for. */
#include "vp.h"
#include <string.h>
#include <unistd.h>
static ssize_t vp_write(int fd, const void *b, size_t n);
#define write vp_write
#include "timedtask.c"
#undef write
typedef struct { _Bool pers, async, now, fail, nul; int ms; } IN;
VP_INPUTS(IN)
static int wrote, a, b; static TaskInfo w;
static int fn(void *x, void *y){ return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int LinkedQueue_Init(LinkedQueue *l, int d, int (*c)(const void *, const void *)){ return 0; }
int LinkedQueueIterator_Init(LinkedQueueIterator *i, LinkedQueue *l){ return -1; }
static ssize_t vp_write(int fd, const void *p, size_t n)
{
    CHECK(fd == 7 && n == sizeof(TaskInfo), "a whole task is handed over");
    wrote++; w = *(const TaskInfo *)p;
    return in.fail ? -1 : (ssize_t)n;
}
void harness(void)
{
    int r;
    VP_LOAD();
    ASSUME(in.ms >= 0 && in.ms <= LIM);
    WriteTo = 7;
    r = TimedTask_Add(in.pers ? 1 : 0, in.async ? 1 : 0, in.ms, in.nul ? NULL : fn, &a, &b, in.now ? 1 : 0);
    if( in.nul ){ CHECK(r != 0 && !wrote, "nothing to run is no task"); REACH("none"); return; }
    CHECK(wrote == 1 && (r == 0) == !in.fail, "a task is added once, a failure is reported");
    CHECK(w.Task == fn && w.Arg1 == &a && w.Arg2 == &b, "with what to run");
    CHECK(!!w.Persistent == (in.pers ? 1 : 0) && !!w.Asynchronous == (in.async ? 1 : 0), "and how");
    CHECK(w.TimeOut.tv_sec == in.ms / 1000 && w.TimeOut.tv_usec == in.ms % 1000 * 1000, "every so many milliseconds");
    if( in.now ) CHECK(w.LeftTime.tv_sec == 0 && w.LeftTime.tv_usec == 0, "at once");
    else CHECK(w.LeftTime.tv_sec == in.ms / 1000 && w.LeftTime.tv_usec == in.ms % 1000 * 1000, "or after the first of them");
    REACH("added");
}
