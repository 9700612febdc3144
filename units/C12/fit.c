/*UNIT
{"kind":"proof","internal":true,
 "functions":["ModuleFitRequest","MsgContext_IsFromTCP"],
 "link":["iheader.c"],"cbmc":["--unwind","6"],"cost":5,"timeout":200}
*/
#include "vp.h"
#include <string.h>
#include "mmgr.c"
typedef struct { _Bool u2t, t2u, fromtcp, reqtcp, kind; } IN;
VP_INPUTS(IN)
static IHeader h;
static ModuleInterface m, *mp = &m;
void harness(void)
{
    VP_LOAD();
    EnableUDPtoTCP = in.u2t; EnableTCPtoUDP = in.t2u;
    m.ModuleName = in.kind ? "TCP" : "UDP";
    h.BackAddress.family = in.fromtcp ? AF_UNSPEC : AF_INET6;
    h.RequestTcp = in.reqtcp;
    int tcpq = in.fromtcp || in.reqtcp;
    int want = tcpq ? (in.kind || in.t2u) : (!in.kind || in.u2t);
    CHECK(!!ModuleFitRequest((const void **)&mp, &h) == want, "a group may serve a query exactly when the protocols agree or crossing over is enabled");
    REACH("end");
}
