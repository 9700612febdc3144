/*UNIT
{"kind":"bounded","bound":"one or two servers, each send taking the message in up to three parts (two with parallel queries) with up to one wait, direct connections; messages of 30 and 300 octets",
 "functions":["TcpM_Send_Actual","TcpM_SendWrapper","TcpM_Connect","TcpM_Connect_Recycle","TcpM_Connect_GetAvailable","TcpM_Connect_Addr"],
 "link":[],"havoc":["IHeader_Fill","IPMiscMapping_Process","MsgContext_IsBlocked","MsgContext_SendBack","DNSCache_AddItemsToCache","DomainStatistic_Add","ShowErrorMessage","ShowTimeOutMessage","ShowNormalMessage","ShowBlockedMessage","ShowSocketError","AddressList_Advance","AddressList_Init","AddressList_Add_From_String","AddressList_GetOneBySubscript","AddressList_GetPtrList","ModuleContext_Init","ModuleContext_Free","StringList_Init","Array_Free","StringListIterator_Init","GetAddressLength","Log_Print","Log_DebugOn","SocketPuller_Init","SocketPullers_Init","SocketPullers_Free","FatalErrorDecideding","ErrorOfVoidSelect","SocketIsWritable","SocketIsStillReadable","SetSocketNonBlock","TryBindLocal","ClearTCPSocketBuffer","IPv4AddressToAsc","IPv6AddressToAsc"],
 "variants":[{"name":"one","defines":["PAR=0","LENV=300","NP=2"]},{"name":"parallel","defines":["PAR=1","LENV=30","NP=1"]}],
 "cbmc":["--unwind","6","--unwindset","harness.0:18,harness.1:18,harness.2:18,harness.3:18"],"cost":8,"timeout":200,
 "trusted":["the kernel's socket, connect, send, close and clock","assumed contracts: socket pool"]}
*/
/* A query goes to a TCP server whole, behind its own length, once on each connection; a
   connection on which that fails is closed, on the others the answer is waited for. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#include "utils.h"
#undef SafeFree
#define SafeFree(p) ((void)(p))
#include "tcpm.c"
typedef struct { int id, part[2][2], wait[2], avail[2], sock[2], conn[2], writable, single; unsigned hash; long now[16]; unsigned char err[2]; } IN;
VP_INPUTS(IN)
BOOL Ipv6_Enabled; int TCPM_Keep_Alive = 30;
static TcpM m; static SocketPuller agent[2], *agents[3] = {&agent[0], &agent[1], NULL};
static struct { IHeader h; char e[64]; } msg;
static TcpContext cc[4];
static struct sockaddr_in sa[2]; static struct sockaddr *svc[3] = {(void *)&sa[0], (void *)&sa[1], NULL}; static sa_family_t fams[2] = {AF_INET, AF_INET};
static int ntime, pos[8], wt[8], closed[8], kept[8], used[8], queue[4], nq, bad, errwait, opened[2], sel_used[2];
/* sockets: 1+i kept from before to server i, 3+i newly made to server i */
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
time_t time(time_t *t){ return ntime < 16 ? in.now[ntime++] : 1 << 30; }
void srand(unsigned s){ } int rand(void){ return 0; }
static int nextsock = 3, srv[8] = {0, 0, 1};
int socket(int f, int t, int p){ CHECK(f == AF_INET && t == SOCK_STREAM, "a stream socket"); return nextsock < 5 ? nextsock++ : -1; }
int SetSocketNonBlock(SOCKET s, BOOL n){ return 0; }
int GetAddressLength(sa_family_t f){ return sizeof(struct sockaddr_in); }
int connect(int s, const struct sockaddr *a, socklen_t n){ CHECK(a == svc[0] || a == svc[1], "to a configured server"); srv[s] = a == svc[1]; CHECK(s >= 3 && s <= 4 && !opened[srv[s]], "once"); opened[srv[s]]++; errwait = 1; return in.conn[srv[s]] == 0 ? 0 : -1; }
int close(int s){ CHECK(s >= 1 && s <= 4, "an own socket"); closed[s]++; return 0; }
int *__errno_location(void){ static int e; e = errwait ? EINPROGRESS : ECONNRESET; return &e; }
int FatalErrorDecideding(int e){ return e == EINPROGRESS ? 0 : -1; }
BOOL ErrorOfVoidSelect(int e){ return TRUE; }
BOOL SocketIsStillReadable(SOCKET s, int t){ return TRUE; }
BOOL SocketIsWritable(SOCKET s, int t){ return in.writable ? 1 : 0; }
int AddressList_Advance(AddressList *a){ return 0; }
void ShowSocketError(const char *p, int e){ }
ssize_t send(int s, const void *b, size_t n, int f)
{
    const unsigned char *start = (unsigned char *)&msg + sizeof(IHeader) - 2; int total = LENV + 2, k = srv[s], r = n, i;
    CHECK(s >= 1 && s <= 4 && !closed[s] && !kept[s], "a connection this query was not sent on yet");
    CHECK(f & MSG_NOSIGNAL, "a peer that is gone does not end the server");
    if( (const unsigned char *)b != start + pos[s] || (int)n > total - pos[s] || (int)n <= 0 ) bad = 1;
    CHECK(!bad, "the octets are sent in order, none twice, none that is not the message's");
    CHECK((unsigned char)start[0] == LENV >> 8 && (unsigned char)start[1] == (LENV & 255), "the length prefix is the message's length");
    if( in.wait[k] == pos[s] && !wt[s] ) { wt[s] = 1; errwait = !in.err[k]; return -1; }
    for( i = 0; i < NP; i++ ) if( pos[s] < in.part[k][i] && in.part[k][i] - pos[s] < r ) r = in.part[k][i] - pos[s];
    pos[s] += r;
    return r;
}
static int q_add(SocketPuller *p, SOCKET s, const void *d, int n)
{
    CHECK(p == &m.QueryPuller && n == sizeof(TcpContext) && nq < 4 && s >= 1 && s <= 4, "a connection to use");
    CHECK(((const TcpContext *)d)->ServerIndex == srv[s], "known by its server");
    cc[nq] = *(const TcpContext *)d; queue[nq++] = s; return 0;
}
static int p_del(SocketPuller *p, SOCKET s){ return 0; }
static SOCKET q_sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    int i;
    *err = 0;
    CHECK(p == &m.QueryPuller && tv && !r && w, "a connection that can be written to, not waited for for ever");
    for( i = 0; i < 2; i++ ) if( i < nq && !used[i] ) { used[i] = 1; *d = &cc[i]; return queue[i]; }
    return INVALID_SOCKET;
}
static TcpContext old[2];
static SOCKET a_sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    int i = p == &agent[1];
    *err = 0;
    if( !in.avail[i] || sel_used[i] ) return INVALID_SOCKET;
    sel_used[i] = 1; old[i].ServerIndex = i; old[i].LastActivity = 1000; old[i].Queried = 1; *d = &old[i]; return 1 + i;
}
static int a_add(SocketPuller *p, SOCKET s, const void *d, int n){ return 0; }
static int m_add(SocketPuller *p, SOCKET s, const void *d, int n)
{
    const TcpContext *c = d;
    CHECK(p == &m.Puller && s >= 1 && s <= 4 && n == sizeof(TcpContext), "the answer is waited for");
    CHECK(pos[s] == LENV + 2 && !closed[s], "where the whole message was sent");
    CHECK(c->MsgCtx == (MsgContext *)&msg && c->MsgCtxQid == in.id && c->MsgCtxHash == in.hash && c->Queried >= 1, "the connection knows what it was asked");
    kept[s]++; return 0;
}
void p_free(SocketPuller *p){ }
int harness(void)
{
    int i, s, n, sent = 0, whole = 0;
    VP_LOAD();
    ASSUME(in.id >= 0 && in.id < 65536 && in.single >= -1 && in.single <= 1);
    for( i = 0; i < 16; i++ ) ASSUME(in.now[i] >= 1000 && in.now[i] < 1100);
    for( i = 0; i < 2; i++ ) ASSUME(in.wait[i] >= -1 && in.wait[i] < 5000 && in.part[i][0] >= 0 && in.part[i][0] <= 5000 && in.part[i][1] >= 0 && in.part[i][1] <= 5000);
    msg.h.EntityLength = LENV; msg.h.HashValue = in.hash; msg.e[0] = in.id >> 8; msg.e[1] = in.id;
    m.Agents = agents; m.Services = svc; m.ServiceFamilies = fams; m.ServiceName = "s"; m.ServiceList.AddressList.Used = 2; m.Parallel = PAR;
    m.QueryPuller.Select = q_sel; m.QueryPuller.Add = q_add; m.QueryPuller.Del = p_del; m.Puller.Add = m_add;
    agent[0].Select = agent[1].Select = a_sel; agent[0].Del = agent[1].Del = p_del; agent[0].Add = agent[1].Add = a_add;
    n = TcpM_Send_Actual(&m, (MsgContext *)&msg, in.single);
    for( s = 1; s <= 4; s++ )
    {
        CHECK(kept[s] <= 1 && closed[s] <= 1 && kept[s] + closed[s] <= 1, "a connection is waited on or closed, not both");
        if( pos[s] || wt[s] ) { CHECK(kept[s] + closed[s] == 1, "one the query was tried on is one or the other"); sent++; }
        whole += kept[s];
    }
    CHECK(n == whole, "as many as were sent to are reported");
    CHECK(PAR || sent <= 1, "without parallel queries one server is asked");
    if( in.single >= 0 ) for( s = 1; s <= 4; s++ ) CHECK(!pos[s] || srv[s] == in.single, "a repeated query goes to the server it is for");
#if PAR
    if( in.single < 0 && n == 2 ) REACH("two");
#else
    if( n == 1 && in.part[0][0] == 1 && wt[1] ) REACH("in parts");
#endif
    return 0;
}
