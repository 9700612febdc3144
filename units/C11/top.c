/*UNIT
{"kind":"bounded","bound":"the relay: one alias query and one recursed answer in either outcome, one idle period; the rest unbounded",
 "functions":["Hosts_Try","Hosts_Try_Inner","Hosts_TypeExisting","Hosts_Get","Hosts_GetCName","Hosts_SocketLoop"],
 "link":[],"havoc":["StaticHosts_TypeExisting","DynamicHosts_TypeExisting","StaticHosts_Try","DynamicHosts_Try","StaticHosts_GetCName","DynamicHosts_GetCName","StaticHosts_Init","DynamicHosts_Init","GoodIpList_Init","MsgContext_SendBackRefusedMessage","MsgContext_SendBack","MsgContext_IsFromTCP","ShowRefusingMessage","ShowNormalMessage","DomainStatistic_Add","HostsUtils_GenerateQuery","HostsUtils_CombineRecursedResponse","MMgr_Send","TryBindLocal","SocketPuller_Init","ModuleContext_Init","ModuleContext_Free","Log_Print","Log_DebugOn","GetAddressLength","ConfigGetBoolean"],
 "variants":[{"name":"try","defines":["TRY"]},{"name":"relay","defines":["RELAY"]}],
 "cbmc":["--unwind","8","--unwindset","strcmp.0:20"],"cost":4,"timeout":200,
 "trusted":["assumed contracts: static and dynamic hosts (unit dyn), answers (unit try), pending queries (C03)","sendto, recvfrom, sockets, rand, time, srand"]}
*/
/* Hosts before everything else: static entries, then downloaded ones. */
#include "vp.h"
#include <string.h>
#include "hosts.c"
typedef struct {
    int type; unsigned char st, dy; int sr, dr; _Bool block6, sendfail;
    _Bool scn, dcn, genqfail, addfail, tcp_, removefail, combfail, backfail; unsigned char seq; int recvlen; unsigned char rec2;
} IN;
VP_INPUTS(IN)
static struct { IHeader h; char e[64]; } msg;
BOOL Ipv6_Enabled;
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
#define HAS(x, t) (((x) & (t)) != 0)
BOOL StaticHosts_TypeExisting(const char *d, HostsRecordType t){ CHECK(d == msg.h.Domain, "the asked name"); return HAS(in.st, t); }
BOOL DynamicHosts_TypeExisting(const char *d, HostsRecordType t){ CHECK(d == msg.h.Domain, "the asked name"); return HAS(in.dy, t); }
static int st, dt, nsend, nrefused, nstat, nshow, nrshow; static StatisticType stat_t;
HostsUtilsTryResult StaticHosts_Try(MsgContext *m, int n){ CHECK((void *)m == (void *)&msg && n == 77 && dt == 0, "the static entries come first"); st++; return in.sr; }
HostsUtilsTryResult DynamicHosts_Try(MsgContext *m, int n){ CHECK((void *)m == (void *)&msg && n == 77 && st == 1, "the downloaded entries come second"); dt++; return in.dr; }
int GetAddressLength(sa_family_t f){ return f; }
ssize_t sendto(int s, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
    CHECK(s == 5 && b == &msg && n == sizeof(IHeader) + 2 && a == (struct sockaddr *)&InnerAddress.Addr && al == 2, "an alias query goes to the relay: header and identifier");
    nsend++; return in.sendfail ? -1 : (ssize_t)n;
}
int MsgContext_SendBackRefusedMessage(MsgContext *m){ CHECK((void *)m == (void *)&msg, "the asker is told"); nrefused++; return 0; }
void ShowRefusingMessage(IHeader *h, const char *m){ nrshow++; }
void ShowNormalMessage(IHeader *h, char p){ nshow++; }
int DomainStatistic_Add(IHeader *h, StatisticType t){ nstat++; stat_t = t; return 0; }
/* the relay */
static MsgContext *g_stored; static struct { IHeader h; char e[16]; } stored;
void srand(unsigned s){ }
int rand(void){ return in.rec2; }
time_t time(time_t *t){ return 0; }
static int step, nsweep, ngenq, nadd, nmm, nrm, ncomb, nback, nrecv_in, nrecv_out, bound, asked_cn;
static char *obuf, *ibuf; static int natt;
SOCKET TryBindLocal(BOOL v6, int port, Address_Type *a){ bound++; return 6; }
static int pu_add(SocketPuller *p, SOCKET s, const void *d, int n){ CHECK(s == 5 || s == 6, "both sockets are watched"); return 0; }
static void pu_free(SocketPuller *p){ }
static SOCKET pu_select(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    int k = step < 3 ? (in.seq >> (2 * step)) & 3 : 3;
    CHECK(r && !w, "waiting to read");
    step++;
    *err = 0;
    if( k == 1 ) return 5;
    if( k == 2 && nadd > nrecv_out ) return 6;
    if( k == 3 || step > 3 ) *err = 1;
    return INVALID_SOCKET;
}
int SocketPuller_Init(SocketPuller *p, int n){ p->Add = pu_add; p->Free = pu_free; p->Select = pu_select; return 0; }
static MsgContext *mc_add(ModuleContext *c, MsgContext *m)
{
    CHECK((char *)m == ibuf && ngenq == ++natt, "the waiting query is remembered");
    if( in.addfail ) return NULL;
    nadd++; return (MsgContext *)&stored;
}
static int mc_remove(ModuleContext *c, MsgContext *i, MsgContext *o)
{
    CHECK((void *)i == (void *)&stored && (char *)o == ibuf, "the query that waits for this answer is taken back");
    nrm++; return in.removefail ? -1 : 0;
}
static void mc_sweep(ModuleContext *c, SweepCallback cb, void *a){ nsweep++; }
int ModuleContext_Init(ModuleContext *c, int n){ CHECK(n == SOCKET_CONTEXT_LENGTH, "whole messages"); c->Add = mc_add; c->GenAnswerHeaderAndRemove = mc_remove; c->Sweep = mc_sweep; return 0; }
void ModuleContext_Free(ModuleContext *c){ }
ssize_t recvfrom(int s, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
    CHECK(n == SOCKET_CONTEXT_LENGTH && __CPROVER_OBJECT_SIZE(b) >= n, "into a buffer that is large enough");
    if( in.recvlen < 1 ) return in.recvlen;
    ASSUME(in.recvlen <= (int)n);
    if( s == 5 ) { ibuf = b; ((IHeader *)b)->Type = 28; nrecv_in++; }
    else { CHECK(s == 6, "one of the two sockets"); obuf = b; ((IHeader *)b)->Parent = (IHeader *)&stored; nrecv_out++; }
    return in.recvlen;
}
int StaticHosts_GetCName(const char *d, char *b){ CHECK(d == ((IHeader *)ibuf)->Domain, "the alias of the asked name"); if( !in.scn ) return -1; strcpy(b, "s"); return 0; }
int DynamicHosts_GetCName(const char *d, char *b){ CHECK(!in.scn, "static first"); if( !in.dcn ) return -1; strcpy(b, "d"); return 0; }
BOOL MsgContext_IsFromTCP(const MsgContext *m){ return in.tcp_ != 0; }
int HostsUtils_GenerateQuery(char *b, int n, SOCKET s, Address_Type *a, BOOL tcp, uint16_t id, const char *name, DNSRecordType t)
{
    CHECK(n == SOCKET_CONTEXT_LENGTH && s == 6 && tcp == (in.tcp_ != 0) && t == 28, "the query for the alias: same type and transport, answered to the relay");
    CHECK(strcmp(name, in.scn ? "s" : "d") == 0, "for where the alias leads");
    obuf = b; ngenq++;
    return in.genqfail ? -1 : 0;
}
int MMgr_Send(const char *b, int n)
{
    CHECK(b == obuf && n == SOCKET_CONTEXT_LENGTH && nadd > nmm, "the query is sent after the asker is remembered");
    CHECK(((IHeader *)b)->Parent == (IHeader *)&stored, "with the asker it is for");
    nmm++; return 0;
}
int HostsUtils_CombineRecursedResponse(MsgContext *m, int n, char *e, int len, const char *rd)
{
    CHECK((char *)m == ibuf && n == SOCKET_CONTEXT_LENGTH && e == obuf + sizeof(IHeader) && rd == ((IHeader *)obuf)->Domain, "asker and recursed answer are joined");
    CHECK(len == in.recvlen - (int)sizeof(IHeader), "only what was received is read");
    CHECK(nrm > ncomb, "for a query that was still waiting");
    ncomb++; return in.combfail ? -1 : 0;
}
int MsgContext_SendBack(MsgContext *m){ CHECK((char *)m == ibuf && ncomb > nback, "the joined answer goes to the asker, once"); nback++; return in.backfail ? -1 : 0; }
int harness(void)
{
    VP_LOAD();
    InnerSocket = 5; InnerAddress.family = 2;
#ifdef TRY
    {
    int r, blocked, ex, res;
    ASSUME(in.sr >= -1 && in.sr <= 1 && in.dr >= -1 && in.dr <= 1);
    BlockIpv6WhenIpv4Exists = in.block6 != 0; msg.h.Type = in.type;
    blocked = in.block6 && in.type == DNS_TYPE_AAAA && (HAS(in.st | in.dy, HOSTS_TYPE_A) || HAS(in.st | in.dy, HOSTS_TYPE_GOOD_IP_LIST));
    ex = HAS(in.st | in.dy, HOSTS_TYPE_EXCLUEDE);
    res = in.sr != HOSTSUTILS_TRY_NONE ? in.sr : in.dr;
    r = Hosts_Get((MsgContext *)&msg, 77);
    if( blocked )
    {
        CHECK(r == 0 && nrefused == 1 && nstat == 1 && stat_t == STATISTIC_TYPE_REFUSED && st + dt + nsend == 0, "IPv6 is refused for a name with an IPv4 entry, when so configured");
        REACH("blocked");
    } else if( ex ) { CHECK(r != 0 && st + dt + nsend + nrefused + nstat == 0, "an excluded name is left to the others"); REACH("excluded"); }
    else {
        CHECK(st == 1 && dt == (in.sr == HOSTSUTILS_TRY_NONE), "downloaded entries are asked only when the static ones know nothing");
        CHECK(nsend == (res == HOSTSUTILS_TRY_RECURSED) && nrefused == 0, "only an alias goes to the relay");
        CHECK((r == 0) == (res == HOSTSUTILS_TRY_OK || (res == HOSTSUTILS_TRY_RECURSED && !in.sendfail)), "handled exactly when an entry answers");
        CHECK(nstat == (res == HOSTSUTILS_TRY_OK) && (nstat == 0 || stat_t == STATISTIC_TYPE_HOSTS), "counted as answered from hosts");
        if( r == 0 ) REACH("handled"); else REACH("not handled");
    }
    }
#else
    Hosts_SocketLoop(NULL);
    CHECK(bound == 1, "one socket for the answers");
    CHECK(ngenq == (in.scn || in.dcn ? nrecv_in : 0), "an alias query is asked for every known alias");
    CHECK(nadd == (in.genqfail || in.addfail ? 0 : ngenq) && nmm == nadd, "each is remembered and sent");
    CHECK(nrm == (in.recvlen >= (int)sizeof(IHeader) ? nrecv_out : 0) && ncomb == (in.removefail ? 0 : nrm) && nback == (in.combfail ? 0 : ncomb), "each answer goes to the asker that waits for it");
    if( nback == 1 ) REACH("relayed");
    if( nsweep == 1 ) REACH("idle");
#endif
    return 0;
}
