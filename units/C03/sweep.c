/*UNIT
{"kind":"bounded","bound":"at most 3 queries pending, any timestamps",
 "functions":["ModuleContext_Sweep","ModuleContext_Sweep_Collect","ModuleContext_Add"],
 "link":["mcontext.c"],"defines":["BSTC_MAX=3"],"variants":[{"name":"sweep","defines":["OP=0"]},{"name":"add","defines":["OP=1"]}],"cbmc":["--unwind","6"],"cost":10,"timeout":300,
 "trusted":["assumed contracts of the search tree (checked bounded under C04) and of the pointer array (checked under C16)","time(): any value"]}
*/
#include "vp.h"
#include <string.h>
#include "mcontext.h"
#include "stubs/bst_contract.h"
#include "stubs/array_ptr_contract.h"
#define N 3
typedef struct { unsigned char live[N]; int ts[N]; int now; _Bool add; } IN;
VP_INPUTS(IN)
typedef struct { IHeader h; unsigned char e[16]; } M;
static M m0, m1, m2, q;
static M *const m[N] = {&m0, &m1, &m2};
static int told[N], ntold, badnum, marker;
time_t time(time_t *t){ return in.now; }
static void cb(const MsgContext *c, int num, void *arg)
{
    int i;
    if( num != ++ntold || arg != &marker ) badnum = 1;
    for( i = 0; i < N; ++i ) if( (const void *)c == (void *)m[i] ) told[i]++;
}
void harness(void)
{
    int i;
    ModuleContext ctx;
    VP_LOAD();
    ASSUME(ModuleContext_Init(&ctx, sizeof(M)) == 0);
    ASSUME(in.now >= 1000);
    for( i = 0; i < N; ++i )
    {
        ASSUME(in.ts[i] >= 0 && in.ts[i] <= in.now);
        bstc_elem[i] = m[i]; bstc_live[i] = in.live[i] & 1; m[i]->h.Timestamp = in.ts[i];
    }
#if OP == 0
    ctx.Sweep(&ctx, cb, &marker);
    for( i = 0; i < N; ++i )
    {
        int old = (in.live[i] & 1) && (time_t)in.now - (time_t)in.ts[i] > 2;
        CHECK(bstc_live[i] == ((in.live[i] & 1) && !old), "exactly the queries older than the timeout are given up");
        CHECK(told[i] == old, "each is reported once");
    }
    CHECK(!badnum && !bstc_bad_delete, "they are numbered from one");
    REACH("end");
#else
    ASSUME(!bstc_live[0]);
    {
        q.e[0] = 7; q.h.HashValue = 99; q.h.SendBackSocket = 5;
        const IHeader *a = (const IHeader *)ctx.Add(&ctx, (MsgContext *)&q);
        CHECK(a == (const void *)&m0 && bstc_live[0] && a->Timestamp == in.now && a->HashValue == 99 && a->SendBackSocket == 5 && m0.e[0] == 7, "a new query is stored as it is, stamped now");
        REACH("added");
    }
#endif
}
