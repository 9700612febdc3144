/*UNIT
{"kind":"bounded","bound":"up to 3 tasks waiting, in the order in which they are due, of any kinds, with times of up to 3 s and 0 or 600 ms (any times: unit tv); one round of the timer, from any state of the queue",
 "functions":["TimeTask_Work","TimeTask_RunTack","TimeTask_ReduceTime","TimeTask_ReallyAdd","Tv_Subtract","Tv_Comapre","Compare","LinkedQueue_Add","LinkedQueue_Get","LinkedQueue_Init","LinkedQueueIterator_Next","LinkedQueueIterator_Init"],
 "variants":[{"name":"due1","defines":["N=1","SEL=0","RF=0"]},{"name":"due2","defines":["N=2","SEL=0","RF=0"]},{"name":"due3","defines":["N=3","SEL=0","RF=0"]},{"name":"lost1","defines":["N=1","SEL=1","RF=1"]},{"name":"lost2","defines":["N=2","SEL=1","RF=1"]},{"name":"new0","defines":["N=0","SEL=1","RF=0"]},{"name":"new1","defines":["N=1","SEL=1","RF=0"]},{"name":"new2","defines":["N=2","SEL=1","RF=0"]},{"name":"new3","defines":["N=3","SEL=1","RF=0"]}],
 "link":[],"havoc":["Log_Print","Log_DebugOn"],
 "trusted":["select leaves in its timeout what is left of it, as Linux does, and returns 0 only when it is over; one write of a task to the pipe is one read from it"],
 "assumes":["memory is there for a queue node"],
 "cbmc":["--unwind","7","--unwindset","TimeTask_Work.0:18,TimeTask_Work.1:2,TimeTask_Work.2:2,TimeTask_Work.3:2,TimeTask_Work.4:2,TimeTask_Work.5:2,TimeTask_Work.6:3,LinkedQueue_Add.0:5"],"cost":5,"timeout":200}
*/
/* The task whose time is over runs, once, and no other; none that waits is lost or
   delayed by the coming or running of another. */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/select.h>
#define select vp_select
#define read vp_read
#define write vp_write
#define pthread_create(h, a, f, p) vp_thread((void (*)(void *))(f), p)
#define pthread_detach(t) 0
static int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
static ssize_t vp_read(int fd, void *b, size_t n);
static ssize_t vp_write(int fd, const void *b, size_t n);
static int vp_thread(void (*f)(void *), void *p);
static void *vp_node(size_t n);
static void vp_free(void *p);
static void *vp_copy(void *d, const void *s, size_t n);
#include "utils.h"
#undef SafeMalloc
#define SafeMalloc(n) vp_node(n)
#define free(p) vp_free(p)
#define memcpy(d, s, n) vp_copy(d, s, n)
#include "timedtask.c"
#include "linkedqueue.c"
#undef free
#undef memcpy
#undef select
#undef read
#undef write
typedef struct { struct { unsigned char s; _Bool u, pers, async; unsigned char ps; _Bool pu; } t[4]; unsigned char rs; _Bool ru; } IN;
VP_INPUTS(IN)
static TaskInfo task[4];
static struct node { ListHead h; TaskInfo t; } n0, n1, n2, n3, n4, n5;
static struct node *const pool[6] = { &n0, &n1, &n2, &n3, &n4, &n5 };
static int nodes, freed[6];
static void *vp_node(size_t n)
{
    CHECK(n == sizeof(ListHead) + sizeof(TaskInfo), "room for a task");
    CHECK(nodes < 6, "no more nodes than tasks");
    return &pool[nodes++]->h;
}
static void vp_free(void *p)
{
    int k;
    for( k = 0; k < 6; k++ ) if( p == (void *)&pool[k]->h ){ CHECK(!freed[k], "a node is given back once"); freed[k] = 1; return; }
    CHECK(p == NULL, "only nodes are given back");
}
static void *vp_copy(void *d, const void *s, size_t n)
{
    CHECK(n == sizeof(TaskInfo), "a whole task is copied");
    *(TaskInfo *)d = *(const TaskInfo *)s;
    return d;
}
static int gets, selects, ran[4], runs, posted[4];
static int elapsed, least;
static int us(const struct timeval *t)
{
    CHECK(t->tv_sec >= 0 && t->tv_sec < 8 && t->tv_usec >= 0 && t->tv_usec < 1000000, "a time is a valid one");
    return (int)(t->tv_sec & 7) * 1000000 + (int)(t->tv_usec & 0xfffff);
}
static void *(*get)(LinkedQueue *l);
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
static int run(void *a, void *b)
{
    int k = (int)(long)a;
    CHECK(k >= 0 && k < N && b == &task[k], "a task runs with its own arguments");
    ran[k]++; runs++;
    return 0;
}
static int vp_thread(void (*f)(void *), void *p){ CHECK(f == (void (*)(void *))TimeTask_RunTack, "a thread runs the task"); TimeTask_RunTack(p); return 0; }
static void same(const TaskInfo *t, int k, int left)
{
    CHECK(t->Task == run && t->Arg2 == &task[k] && !!t->Persistent == !!task[k].Persistent && !!t->Asynchronous == !!task[k].Asynchronous, "a task stays what it is");
    CHECK(us(&t->TimeOut) == us(&task[k].TimeOut), "a task keeps its interval");
    CHECK(us(&t->LeftTime) == left, "a task runs when its time is over, not before or after");
}
static ssize_t vp_write(int fd, const void *b, size_t n)
{
    const TaskInfo *t = b; int k = (int)(long)t->Arg1;
    CHECK(fd == 5 && n == sizeof(TaskInfo), "a whole task is handed back");
    CHECK(k >= 0 && k < N && ran[k] == 1, "when it has run");
    same(t, k, us(&task[k].TimeOut));
    posted[k]++;
    return n;
}
static ssize_t vp_read(int fd, void *b, size_t n)
{
    CHECK(fd == 4 && n == sizeof(TaskInfo), "a whole task is taken");
    if( RF ) return -1;
    *(TaskInfo *)b = task[3];
    return n;
}
static int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    selects++;
    CHECK(n == 5 && w == NULL && e == NULL, "new tasks are waited for");
    CHECK((tv == NULL) == (N == 0), "the wait is limited when tasks are waiting");
    if( tv ) CHECK(us(tv) == least, "by the task that is due first");
#if SEL
    if( tv )
    {
        struct timeval rem; rem.tv_sec = in.rs; rem.tv_usec = in.ru ? 500000 : 0;
        ASSUME(in.rs < 4 && us(&rem) <= us(tv));
        elapsed = us(tv) - us(&rem); *tv = rem;
    }
    return 1;
#else
    elapsed = us(tv); tv->tv_sec = 0; tv->tv_usec = 0;
    return 0;
#endif
}
static void *vp_get(LinkedQueue *l)
{
    if( gets++ )
    {
        LinkedQueueIterator it; TaskInfo *t; int seen[4] = { 0, 0, 0, 0 }, k; int last = 0;
        LinkedQueueIterator_Init(&it, l);
        while( (t = it.Next(&it)) != NULL )
        {
            k = (int)(long)t->Arg1;
            CHECK(k >= 0 && k < 4, "only tasks are in the queue");
            CHECK(us(&t->LeftTime) >= last, "the one that is due first comes first"); last = us(&t->LeftTime);
            seen[k]++;
            { int q; for( q = 0; q < 6; q++ ) if( t == &pool[q]->t ) CHECK(!freed[q], "what waits is not given back"); }
            same(t, k, k < N && ran[k] ? us(&task[k].TimeOut) : us(&task[k].LeftTime) - (k == 3 ? 0 : elapsed));
        }
        CHECK(selects == 1, "one wait a round");
        CHECK(runs == (SEL ? 0 : 1), "one task runs when its time is over, none otherwise");
        for( k = 0; k < N; k++ )
        {
            if( ran[k] )
            {
                CHECK(us(&task[k].LeftTime) == least, "the task that is due first runs");
                CHECK(seen[k] + posted[k] == (task[k].Persistent ? 1 : 0), "a repeated task waits again, another is done");
                if( seen[k] ) CHECK(!task[k].Asynchronous, "a task of another thread comes back through the pipe");
            }
            else CHECK(seen[k] == 1 && posted[k] == 0, "no task that waits is lost or doubled");
        }
        CHECK(seen[3] == (SEL && !RF ? 1 : 0), "a new task waits");
        REACH("round");
#ifdef __CPROVER
        ASSUME(0);
#else
        exit(0);
#endif
    }
    return get(l);
}
void harness(void)
{
    int k;
    VP_LOAD();
    CHECK(LinkedQueue_Init(&TimeQueue, sizeof(TaskInfo), Compare) == 0, "queue");
    for( k = 0; k < 4; k++ )
    {
        ASSUME(in.t[k].s < 4 && in.t[k].ps < 4);
        task[k].Task = run; task[k].Arg1 = (void *)(long)k; task[k].Arg2 = &task[k];
        task[k].Persistent = in.t[k].pers ? 1 : 0; task[k].Asynchronous = in.t[k].async ? 1 : 0;
        task[k].LeftTime.tv_sec = in.t[k].s; task[k].LeftTime.tv_usec = in.t[k].u ? 600000 : 0;
        task[k].TimeOut.tv_sec = in.t[k].ps; task[k].TimeOut.tv_usec = in.t[k].pu ? 600000 : 0;
        if( k < N )
        {
            /* any queue in which the one due first comes first */
            pool[k]->t = task[k];
            if( k == 0 ){ TimeQueue.First = &pool[0]->h; least = us(&task[0].LeftTime); }
            else { ASSUME(us(&task[k - 1].LeftTime) <= us(&task[k].LeftTime)); pool[k - 1]->h.Next = &pool[k]->h; }
            nodes = k + 1;
        }
    }
    get = TimeQueue.Get; TimeQueue.Get = vp_get;
    ReadFrom = 4; WriteTo = 5;
    TimeTask_Work(NULL);
    CHECK(0, "the timer goes on");
}
