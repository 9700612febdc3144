/*UNIT
{"kind":"proof","functions":["ModuleContextCompare","ModuleContext_Init"],
 "link":["iheader.c"],"havoc":["Bst_Init"],"cbmc":["--unwind","4"],"cost":5,"timeout":300,
 "trusted":["Bst_Init is a stand-in here that only records the comparison function it is given"]}
*/
/* The order pending queries are kept in: a total preorder in which two entries
   are equal exactly when id and name hash are.  The search tree's contract
   (C04) rests on this. */
#include "vp.h"
#include <string.h>
#include "mcontext.h"
int Bst_Init(Bst *t, int n, CompareFunc f){ t->Compare = f; t->ElementLength = n; return 0; }
typedef struct { unsigned short id[3]; unsigned int h[3]; } IN;
VP_INPUTS(IN)
typedef struct { IHeader h; unsigned char e[16]; } M;
static M a, b, c;
static void set(M *m, int i){ m->h.HashValue = in.h[i]; m->e[0] = in.id[i] >> 8; m->e[1] = in.id[i] & 255; }
void harness(void)
{
    ModuleContext ctx;
    VP_LOAD();
    CHECK(ModuleContext_Init(&ctx, sizeof(M)) == 0, "init");
    set(&a, 0); set(&b, 1); set(&c, 2);
    int ab = ctx.d.Compare(&a, &b), ba = ctx.d.Compare(&b, &a), bc = ctx.d.Compare(&b, &c), ac = ctx.d.Compare(&a, &c);
    CHECK((ab == 0) == (in.id[0] == in.id[1] && in.h[0] == in.h[1]), "two pending queries are the same exactly when id and name hash agree");
    CHECK((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "the order is antisymmetric");
    CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "the order is transitive");
    CHECK(ctx.Add && ctx.Del && ctx.Find && ctx.GenAnswerHeaderAndRemove && ctx.Sweep, "all operations are there");
    REACH("end");
}
