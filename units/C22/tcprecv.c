/*UNIT
{"kind":"bounded","bound":"announced lengths of 0, 1, 30 octets, the largest that fits, one more, and 65535; a stream that arrives in up to three pieces, with up to one wait in between (which need not fit); one round (a query to pass on, or an answer) from an arbitrary buffer, which is all a round takes over; direct connections, one server",
 "functions":["TcpM_Works","TcpM_RecvWrapper","TcpM_Cleanup"],
 "link":[],"havoc":["IHeader_Fill","IPMiscMapping_Process","MsgContext_IsBlocked","MsgContext_SendBack","DNSCache_AddItemsToCache","DomainStatistic_Add","ShowErrorMessage","ShowTimeOutMessage","ShowNormalMessage","ShowBlockedMessage","ShowSocketError","AddressList_Advance","AddressList_Init","AddressList_Add_From_String","AddressList_GetOneBySubscript","AddressList_GetPtrList","ModuleContext_Init","ModuleContext_Free","StringList_Init","Array_Free","StringListIterator_Init","GetAddressLength","Log_Print","Log_DebugOn","SocketPuller_Init","SocketPullers_Init","SocketPullers_Free","FatalErrorDecideding","ErrorOfVoidSelect","SocketIsWritable","SocketIsStillReadable","SetSocketNonBlock","TryBindLocal","ClearTCPSocketBuffer","IPv4AddressToAsc","IPv6AddressToAsc"],
 "variants":[{"name":"l0","defines":["LENV=0"]},{"name":"l1","defines":["LENV=1"]},{"name":"l30","defines":["LENV=30"]},{"name":"lmax","defines":["LENV=LEFT"]},{"name":"lover","defines":["LENV=(LEFT+1)"]},{"name":"l65535","defines":["LENV=65535"]}],
 "cbmc":["--unwind","9","--unwindset","TcpM_RecvWrapper.0:6,TcpM_Works.0:5,harness.0:4,harness.1:4,harness.2:14,harness.3:14,harness.4:14"],"cost":8,"timeout":200,
 "trusted":["the kernel's recv, close and clock","assumed contracts: IHeader_Fill (C21), filters (C10), pending queries and delivery (C03), cache (C05), socket pool"]}
*/
/* An answer that came over TCP is worked on only when all its announced octets are there,
   however they arrived, with its whole length; a stream that ends short is closed and
   forgotten, that of a complete answer is kept for the next query. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#include "utils.h"
#undef SafeFree
#define SafeFree(p) ((void)(p))
#include "tcpm.c"
typedef struct { int tot, cut[2], wait[1], fatal, readable, fill, ip, ctx, back, ingot, add, kind[2]; long now[12];  _Bool blocked, end, queried, retry; } IN;
VP_INPUTS(IN)
BOOL Ipv6_Enabled; int TCPM_Keep_Alive;
static TcpM m; static SocketPuller agent, *agents[2] = {&agent, NULL};
static TcpContext ctx; static struct { IHeader h; char e[64]; } stored; static MsgContext *pass;
static IHeader *hdr; static char *entity;
static int len_;
static int round_ = -1, st, pos, bad, nwait, ntime, closed, deled, added, kept, nback, ncache, nadd, ntry, nsweep;
#define LEN len_
enum { S = 7, INCOMING = 5 };
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
time_t time(time_t *t){ return ntime < 12 ? in.now[ntime++] : 1 << 30; }
void srand(unsigned s){ } int rand(void){ return 0; }
int close(int s){ if( s == S ) closed++; else CHECK(!m.IsServer, "no other socket is closed while working"); return 0; }
int socket(int f, int t, int p){ ntry++; return -1; }
int *__errno_location(void){ static int e; e = nwait ? EAGAIN : ECONNRESET; return &e; }
int FatalErrorDecideding(int e){ return e == EAGAIN ? 0 : -1; }
BOOL ErrorOfVoidSelect(int e){ return TRUE; }
BOOL SocketIsStillReadable(SOCKET s, int t){ CHECK(s == S && t > 0, "waits for this stream, for a time"); return in.readable ? 1 : 0; }
BOOL SocketIsWritable(SOCKET s, int t){ return TRUE; }
int AddressList_Advance(AddressList *a){ return 0; }
int GetAddressLength(sa_family_t f){ return 16; }
void ShowSocketError(const char *p, int e){ }
void Array_Free(Array *a){ }
void SocketPullers_Free(SocketPuller **p){ }
void ModuleContext_Free(ModuleContext *c){ }
ssize_t recv(int s, void *b, size_t n, int f)
{
    int left = in.tot - pos, r, i;
    CHECK(s == S && round_ >= 0 && in.kind[round_] == S, "the ready connection is read");
    if( pos < 2 ) CHECK((int)n <= 2 - pos, "first comes the length");
    else {
        if( entity == NULL ) { entity = b; hdr = (IHeader *)entity - 1; }
        CHECK((int)n <= 2 + LEN - pos, "then a message of that length");
        CHECK(LEN <= (int)(SOCKET_CONTEXT_LENGTH - sizeof(IHeader)), "that fits");
    }
    if( n == 0 ) return 0;
    for( i = 0; i < 1; i++ ) if( nwait == i && in.wait[i] == pos ) { nwait++; return -1; }
    if( left <= 0 ) { if( in.end ) { nwait = 0; return -1; } return 0; }
    r = left;
    for( i = 0; i < 2; i++ ) if( pos < in.cut[i] && in.cut[i] - pos < r ) r = in.cut[i] - pos;
    if( r > (int)n ) r = n;
    if( pos < 2 ) for( i = 0; i < 2; i++ ) { if( i < r ) ((unsigned char *)b)[i] = pos + i ? len_ & 255 : len_ >> 8; }
    else if( (char *)b != entity + pos - 2 ) bad = 1;
    pos += r;
    return r;
}
ssize_t recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *al)
{
    CHECK(s == INCOMING && n <= SOCKET_CONTEXT_LENGTH, "a query to pass on is taken, not past the buffer");
    pass = b;
    return in.ingot;
}
static MsgContext *ctx_add(ModuleContext *c, MsgContext *q)
{ CHECK(c == &m.Context && q == pass && in.ingot > 0, "a query is remembered before it leaves"); nadd++; return in.add ? (MsgContext *)&stored : NULL; }
static void ctx_sweep(ModuleContext *c, SweepCallback cb, void *arg){ CHECK(c == &m.Context && arg == &m, "the own pending queries are swept"); nsweep++; }
int IHeader_Fill(IHeader *h, BOOL rh, char *e, int len, const struct sockaddr *a, SOCKET s, sa_family_t f, const char *ag)
{
    CHECK(st == 0 && pos >= 2 && !bad && (pos == 2 + LEN), "only a whole message is looked at");
    CHECK(len == LEN, "with its whole length");
    CHECK(LEN == 0 || (h == hdr && e == entity), "where it is");
    CHECK(a == NULL && ag == NULL, "and no client yet");
    hdr = h;
    if( in.fill == 0 ) st = 2;
    return in.fill;
}
int IPMiscMapping_Process(MsgContext *c){ CHECK(st == 2 && (IHeader *)c == hdr, "the filters see this message under its own header"); st = 3; return in.ip; }
BOOL MsgContext_IsBlocked(const MsgContext *c){ CHECK((st == 2 || st == 3) && (IHeader *)c == hdr, "and so does the EDNS check"); st = st == 3 ? 4 : st; return in.blocked ? 1 : 0; }
static int ctx_gen(ModuleContext *c, MsgContext *i, MsgContext *o)
{
    CHECK(c == &m.Context && st == 4 && (IHeader *)i == hdr && (IHeader *)o == hdr, "only an answer that passed the filters is matched");
    st = 5; return in.ctx;
}
int DNSCache_AddItemsToCache(MsgContext *c, BOOL first)
{ CHECK(st == 5 && (IHeader *)c == hdr && !!first == (in.ctx == 0), "it is stored as the first answer only if somebody waits for it"); ncache++; st = 6; return 0; }
int MsgContext_SendBack(MsgContext *c){ CHECK(st >= 5 && in.ctx == 0 && (IHeader *)c == hdr, "it is sent back after its header has become the client's"); nback++; return in.back; }
int DomainStatistic_Add(IHeader *h, StatisticType t){ CHECK(h == hdr && st >= 2, "and counted under its own header"); return 0; }
void ShowErrorMessage(IHeader *h, char p){ } void ShowTimeOutMessage(const IHeader *h, char p){ } void ShowNormalMessage(IHeader *h, char p){ } void ShowBlockedMessage(IHeader *h, const char *s){ }
static int p_del(SocketPuller *p, SOCKET s){ if( p == &m.Puller ) { if( s == S ) deled++; } return 0; }
static int p_add(SocketPuller *p, SOCKET s, const void *d, int n)
{
    if( p == &agent ) { CHECK(s == S && n == sizeof(TcpContext) && ((const TcpContext *)d)->MsgCtx == NULL && ((const TcpContext *)d)->ServerIndex == 0, "a kept connection waits for no answer"); kept++; }
    if( p == &m.Puller && s == S ) added++;
    return 0;
}
static void settle(void)
{
    if( round_ < 0 ) return;
    if( in.kind[round_] == S )
    {
        int whole = in.tot >= 2 && LEN <= (int)(SOCKET_CONTEXT_LENGTH - sizeof(IHeader)) && in.tot >= 2 + LEN;
        int calm = in.wait[0] < 0;  /* nothing but splits */
        int ok;
        CHECK(closed + kept == 1 && deled == 1 && !added, "the connection is closed, or kept for the next query, not both");
        if( calm ) CHECK(kept == whole, "it is kept if the whole answer came, however it was split");
        else CHECK(!kept || whole, "and only then");
        ok = kept && in.fill == 0 && in.ip == IP_MISC_NOTHING && !in.blocked;
        CHECK(ncache == ok && nback == (ok && in.ctx == 0), "an answer the filters let pass is offered to the cache and to who waits for it, once; nothing else is");
        CHECK(!nadd, "an answer is no query");
        if( ntry ) CHECK(!kept && in.queried && in.retry, "a query is tried again only if its connection ended while it was pending");
        if( calm && in.tot == 0 ) CHECK((ntry > 0) == (in.queried && in.retry), "and is tried again then");
    } else if( in.kind[round_] == INCOMING ) {
        CHECK(nadd == (in.ingot > 0), "each query is remembered");
        CHECK((ntry > 0) == (in.ingot > 0 && in.add), "and passed on");
        CHECK(!closed && !nback && !ncache, "nothing else");
    }
    closed = deled = added = kept = nback = ncache = nadd = ntry = st = pos = bad = nwait = 0; entity = NULL;
}
static SOCKET q_sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err){ *err = 0; return INVALID_SOCKET; }
static SOCKET sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    CHECK(p == &m.Puller && tv && r && !w, "waits, not for ever, for answers and queries");
    settle();
    *err = 0;
    if( ++round_ >= 1 ) { m.IsServer = 0; round_ = -1; return INVALID_SOCKET; }
    ctx.ServerIndex = 0; ctx.Queried = in.queried ? 2 : 1; ctx.MsgCtx = (MsgContext *)&stored; ctx.MsgCtxQid = 0x1234; ctx.MsgCtxHash = 99;
    stored.h.HashValue = in.retry ? 99 : 98; stored.h.Domain[0] = 'q'; stored.e[0] = 0x12; stored.e[1] = 0x34; stored.h.EntityLength = 20;
    *d = &ctx;
    return in.kind[round_];
}
static void run(int len)
{
    len_ = len;
    TcpM_Works(&m);
    if( in.kind[0] == S && in.tot > 40 && in.fill == 0 && in.cut[0] == 1 && in.cut[1] == 10 ) REACH("split stream");
}
int harness(void)
{
    int i;
    VP_LOAD();
    for( i = 0; i < 2; i++ ) ASSUME((in.kind[i] == S || in.kind[i] == INCOMING || in.kind[i] == INVALID_SOCKET) && in.wait[0] >= -1 && in.wait[0] <= 9000);
    ASSUME(in.tot >= 0 && in.tot <= 65537);
    for( i = 0; i < 2; i++ ) ASSUME(in.cut[i] >= 0 && in.cut[i] <= 65537);
    for( i = 0; i < 12; i++ ) ASSUME(in.now[i] >= 1000 && in.now[i] < 1 << 20);
    ASSUME(in.ip >= -3 && in.ip <= 1 && in.ingot >= -1 && in.ingot <= SOCKET_CONTEXT_LENGTH);
    m.IsServer = 1; m.Incoming = INCOMING; m.Agents = agents; m.Puller.Select = sel; m.Puller.Add = p_add; m.Puller.Del = p_del; agent.Add = p_add; agent.Del = p_del; agent.Select = q_sel;
    m.QueryPuller.Select = q_sel; m.QueryPuller.Add = p_add; m.QueryPuller.Del = p_del;
    m.Context.GenAnswerHeaderAndRemove = ctx_gen; m.Context.Add = ctx_add; m.Context.Sweep = ctx_sweep;
    static struct sockaddr *svc[1]; static sa_family_t fams[1] = {AF_INET}; m.Services = svc; m.ServiceFamilies = fams; m.ServiceName = "s"; m.ServiceList.AddressList.Used = 1;
    static void (*nofree)(SocketPuller *); extern void p_free(SocketPuller *); m.Puller.Free = p_free; m.QueryPuller.Free = p_free;
#define LEFT ((int)(SOCKET_CONTEXT_LENGTH - sizeof(IHeader)))
    run(LENV);
    return 0;
}
void p_free(SocketPuller *p){ }
