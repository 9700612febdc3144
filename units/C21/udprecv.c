/*UNIT
{"kind":"proof","functions":["UdpM_Works","UdpM_Cleanup"],
 "link":[],"havoc":["IHeader_Fill","IPMiscMapping_Process","MsgContext_IsBlocked","MsgContext_SendBack","MsgContext_AddFakeEdns","DNSCache_AddItemsToCache","DomainStatistic_Add","ShowErrorMessage","ShowTimeOutMessage","ShowNormalMessage","ShowBlockedMessage","AddressList_GetOne","Array_Free","AddressList_Advance","AddressList_Init","AddressList_Add_From_String","AddressList_GetOneBySubscript","AddressList_GetPtrListOfFamily","ModuleContext_Init","ModuleContext_Free","StringList_Init","StringListIterator_Init","GetAddressLength","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","6","--unwindset","UdpM_Works.0:18,UdpM_Works.1:18,UdpM_Works.2:18,UdpM_Works.3:18"],"cost":4,"timeout":200,
 "trusted":["the kernel's socket, select and recvfrom","assumed contracts: IHeader_Fill (fill unit), filters (C10), pending queries and delivery (C03), cache (C05)","the state a round of the loop takes over from the round before is the message buffer and the socket, both arbitrary at the start here: two rounds from there stand for all"]}
*/
/* What an upstream sent over UDP is worked on only under a header filled from it; it is
   stored and sent back only if no filter rejects it, and sent back only to a client that
   waits for it, after its header has become that client's. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#include "utils.h"
#undef SafeFree
#define SafeFree(p) ((void)(p))
#include "udpm.c"
typedef struct { int dep, sel[2], got[2], fill[2], ip[2], ctx[2], back[2], newsock[2], tmo; _Bool blocked[2], par; unsigned char junk; } IN;
VP_INPUTS(IN)
static UdpM m;
static IHeader *hdr; static struct sockaddr_in addr;
static int round_ = -1, st, lockdepth, over; /* st: 0 received nothing, 1 received, 2 filled, 3 filters asked, 4 edns asked, 5 matched, 6 cached, 7 sent */
static int nback, ncache;
int pthread_mutex_lock(pthread_mutex_t *l){ CHECK(lockdepth == 0, "the lock is not taken twice"); lockdepth++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *l){ CHECK(lockdepth == 1, "the lock is held"); lockdepth--; return 0; }
int pthread_mutex_init(pthread_mutex_t *l, const pthread_mutexattr_t *a){ return 0; }
int pthread_mutex_destroy(pthread_mutex_t *l){ return 0; }
int pthread_spin_lock(pthread_spinlock_t *l){ CHECK(lockdepth == 0, "the lock is not taken twice"); lockdepth++; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l){ CHECK(lockdepth == 1, "the lock is held"); lockdepth--; return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int a){ return 0; }
int pthread_spin_destroy(pthread_spinlock_t *l){ return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int socket(int f, int t, int p){ CHECK(t == SOCK_DGRAM && (f == AF_INET || f == AF_INET6), "a datagram socket of the upstream's family"); return in.newsock[round_ + 1 > 1 ? 1 : round_ + 1]; }
int close(int s){ return 0; }
struct sockaddr *AddressList_GetOne(AddressList *a, sa_family_t *f){ CHECK(lockdepth == 1, "under the lock"); *f = AF_INET; return (struct sockaddr *)&addr; }
int AddressList_Advance(AddressList *a){ return 0; }
void Array_Free(Array *a){ }
int GetAddressLength(sa_family_t f){ return 16; }
static int expect_back(void){ return round_ >= 0 && in.sel[round_] > 0 && in.got[round_] > 0 && in.fill[round_] == 0 && in.ip[round_] == IP_MISC_NOTHING && !in.blocked[round_]; }
static void settle(void)
{
    if( round_ < 0 ) return;
    CHECK(ncache == expect_back(), "every answer the filters let pass is offered to the cache, once; nothing else is");
    CHECK(nback == (expect_back() && in.ctx[round_] == 0), "every such answer somebody waits for is sent back, once; nothing else is");
    CHECK(lockdepth == 0, "the lock is released");
    nback = ncache = st = 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    settle();
    CHECK(n > m.Departure && FD_ISSET(m.Departure, r) && !w && !e && tv, "waits, not for ever, on the socket queries leave by");
    if( ++round_ >= 2 ) { m.IsServer = 0; round_ = 1; over = 1; return 0; }
    return in.sel[round_];
}
ssize_t recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *al)
{
    CHECK(s == m.Departure && st == 0 && in.sel[round_] > 0, "the ready socket is read");
    CHECK(n <= SOCKET_CONTEXT_LENGTH - sizeof(IHeader), "not past the message area");
    hdr = (IHeader *)((char *)b - sizeof(IHeader));
    st = 1;
    return in.got[round_];
}
int IHeader_Fill(IHeader *h, BOOL rh, char *e, int len, const struct sockaddr *a, SOCKET s, sa_family_t f, const char *agent)
{
    CHECK(st == 1 && h == hdr && e == (char *)(hdr + 1) && len == in.got[round_], "the header is made from this datagram");
    CHECK(a == NULL && agent == NULL, "which has no client yet");
    if( in.fill[round_] == 0 ) st = 2;
    return in.fill[round_];
}
int IPMiscMapping_Process(MsgContext *c){ CHECK(st == 2 && (IHeader *)c == hdr, "the filters see this message under its own header"); st = 3; return in.ip[round_]; }
BOOL MsgContext_IsBlocked(const MsgContext *c){ CHECK((st == 2 || st == 3) && (IHeader *)c == hdr, "and so does the EDNS check"); st = st == 3 ? 4 : st; return in.blocked[round_] ? 1 : 0; }
static int ctx_gen(ModuleContext *c, MsgContext *i, MsgContext *o)
{
    CHECK(c == &m.Context && lockdepth == 1, "pending queries are looked at under the lock");
    CHECK(st == 4 && (IHeader *)i == hdr && (IHeader *)o == hdr, "only an answer that passed the filters is matched");
    st = 5; return in.ctx[round_];
}
int DNSCache_AddItemsToCache(MsgContext *c, BOOL first)
{ CHECK(st == 5 && (IHeader *)c == hdr && !!first == (in.ctx[round_] == 0), "it is stored as the first answer only if somebody waits for it"); ncache++; st = 6; return 0; }
int MsgContext_SendBack(MsgContext *c){ CHECK(st >= 5 && in.ctx[round_] == 0 && (IHeader *)c == hdr, "it is sent back after its header has become the client's"); nback++; return in.back[round_]; }
int DomainStatistic_Add(IHeader *h, StatisticType t){ CHECK(h == hdr && st >= 2, "and counted under its own header"); return 0; }
void ShowErrorMessage(IHeader *h, char p){ } void ShowTimeOutMessage(const IHeader *h, char p){ } void ShowNormalMessage(IHeader *h, char p){ } void ShowBlockedMessage(IHeader *h, const char *s){ }
int harness(void)
{
    int i;
    VP_LOAD();
    ASSUME(in.dep >= -1 && in.dep < 40 && in.tmo >= 0 && in.tmo < 100);
    for( i = 0; i < 2; i++ ) ASSUME(in.sel[i] >= -1 && in.sel[i] <= 1 && in.got[i] >= -1 && in.got[i] <= (int)(SOCKET_CONTEXT_LENGTH - sizeof(IHeader)) && in.newsock[i] >= -1 && in.newsock[i] < 40 && in.ip[i] >= -3 && in.ip[i] <= 1);
    m.Departure = -1; m.IsServer = 1; m.CountOfTimeout = in.tmo;
    m.Context.GenAnswerHeaderAndRemove = ctx_gen;
    UdpM_Works(&m);
    if( over )
    {
        if( expect_back() && in.fill[0] != 0 && in.got[0] > 0 && in.sel[0] > 0 ) REACH("unreadable, then an answer");
    } else {
        settle();
        CHECK(in.newsock[0] == -1 || in.newsock[1] == -1, "the work only ends when it is told to, or when no socket can be had");
    }
    return 0;
}
