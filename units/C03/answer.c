/*UNIT
{"kind":"bounded","bound":"at most 3 queries pending; ids, name hashes, client addresses, sockets, lengths and the response are arbitrary",
 "functions":["ModuleContext_GenAnswerHeaderAndRemove","ModuleContext_Find","IHeader_Reset"],
 "link":["mcontext.c","iheader.c"],"defines":["BSTC_MAX=3"],"cbmc":["--unwind","5"],"cost":10,"timeout":300,
 "trusted":["assumed contract of the search tree (checked bounded under C04)"]}
*/
/* A response picks up the return address of a query with its id and name, of
   nobody else; that query is forgotten, the others stay. */
#include "vp.h"
#include <string.h>
#include "mcontext.h"
#include "stubs/bst_contract.h"
#define N 3
typedef struct { unsigned char live[N]; unsigned short id[N], rid; unsigned h[N], rh; int fam[N], sock[N], port[N], olen[N], rlen, oedns[N], redns, rtcp[N], ret[N], ty[N]; unsigned pick; char dom[N], rdom; } IN;
VP_INPUTS(IN)
typedef struct { IHeader h; unsigned char e[16]; } M;
static M m0, m1, m2, resp;
static M *const m[N] = {&m0, &m1, &m2};
void harness(void)
{
    int i, r, cnt = 0, gone = -1, matching = 0;
    ModuleContext ctx;
    VP_LOAD();
    bst_pick = in.pick;
    ASSUME(ModuleContext_Init(&ctx, sizeof(M)) == 0);
    for( i = 0; i < N; ++i )
    {
        bstc_elem[i] = m[i]; bstc_live[i] = in.live[i] & 1;
        m[i]->h.HashValue = in.h[i]; m[i]->e[0] = in.id[i] >> 8; m[i]->e[1] = in.id[i];
        m[i]->h.BackAddress.family = in.fam[i]; m[i]->h.SendBackSocket = in.sock[i];
        m[i]->h.BackAddress.Addr.Addr4.sin_port = in.port[i];
        m[i]->h.EntityLength = in.olen[i]; m[i]->h.EDNSEnabled = in.oedns[i]; m[i]->h.RequestTcp = in.rtcp[i];
        m[i]->h.ReturnHeader = in.ret[i]; m[i]->h.Type = in.ty[i]; m[i]->h.Domain[0] = in.dom[i];
        if( (in.live[i] & 1) && in.id[i] == in.rid && in.h[i] == in.rh ) matching++;
    }
    resp.h.HashValue = in.rh; resp.e[0] = in.rid >> 8; resp.e[1] = in.rid; resp.e[2] = 77;
    resp.h.EntityLength = in.rlen; resp.h.EDNSEnabled = in.redns; resp.h.Domain[0] = in.rdom;

    r = ctx.GenAnswerHeaderAndRemove(&ctx, (MsgContext *)&resp, (MsgContext *)&resp);

    CHECK((r == 0) == (matching > 0), "a response is accepted exactly when a query with its id and name is pending");
    for( i = 0; i < N; ++i ) if( (in.live[i] & 1) && !bstc_live[i] ) { cnt++; gone = i; }
    CHECK(!bstc_bad_delete && cnt == (r == 0) && bstc_added == 0, "an accepted response uses up exactly one pending query, a rejected one none");
    CHECK(resp.e[0] == in.rid >> 8 && resp.e[1] == (in.rid & 255) && resp.e[2] == 77, "the message itself is untouched");
    for( i = 0; i < N; ++i )
        if( i != gone ) CHECK(m[i]->h.SendBackSocket == in.sock[i] && m[i]->h.HashValue == in.h[i] && m[i]->h.BackAddress.family == (sa_family_t)in.fam[i], "the other pending queries keep their return address");
    if( r == 0 )
    {
        CHECK(in.id[gone] == in.rid && in.h[gone] == in.rh, "the query used up has the response's id and name");
        CHECK(resp.h.SendBackSocket == in.sock[gone] && resp.h.BackAddress.family == (sa_family_t)in.fam[gone] &&
              resp.h.BackAddress.Addr.Addr4.sin_port == (in_port_t)in.port[gone], "the response goes to the client that asked");
        CHECK(resp.h.ReturnHeader == in.ret[gone] && resp.h.RequestTcp == in.rtcp[gone] && resp.h.Domain[0] == in.dom[gone] && resp.h.Type == in.ty[gone], "it is sent the way that client's query asks for");
        CHECK(resp.h.EntityLength == in.rlen && resp.h.EDNSEnabled == in.redns, "it has the response's length");
        REACH("accepted");
    } else REACH("rejected");
}
