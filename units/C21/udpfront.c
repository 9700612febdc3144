/*UNIT
{"kind":"proof","functions":["UdpFrontend_Work"],
 "link":[],"havoc":["IHeader_Fill","MMgr_Send","IPv4AddressToAsc","IPv6AddressToAsc","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","6"],"cost":4,"timeout":200,
 "trusted":["the kernel's recvfrom and select; the address-to-text conversions (used for logging)","the only state a round of the loop takes over from the round before is the message buffer, which is arbitrary at the start here: two rounds from there stand for all"]}
*/
/* What a UDP client sent is handed on under a header filled from that very datagram,
   or not at all. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#undef SafeMalloc
#undef SafeFree
#include "utils.h"
#undef SafeMalloc
#undef SafeFree
static void *vp_alloc(size_t n); static void vp_release(void *p);
#define SafeMalloc(n) vp_alloc(n)
#define SafeFree(p) vp_release(p)
#include "udpfrontend.c"
typedef struct { int sock[2], fam[2], got[2], fill[2], seed; } IN;
VP_INPUTS(IN)
static union { IHeader h; char b[SOCKET_CONTEXT_LENGTH]; } buf;
static int round_ = -1, filled, sent, nalloc, nfree; static sa_family_t fam;
static char *entity = (char *)&buf + sizeof(IHeader); static const void *from;
static void *vp_alloc(size_t n){ CHECK(n == sizeof(buf), "a whole message buffer"); nalloc++; return &buf; }
static void vp_release(void *p){ CHECK(p == &buf, "the buffer is released"); nfree++; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int IPv4AddressToAsc(const void *a, void *b){ ((char *)b)[0] = '4'; ((char *)b)[1] = 0; return 1; }
int IPv6AddressToAsc(const void *a, void *b){ ((char *)b)[0] = '6'; ((char *)b)[1] = 0; return 1; }
ssize_t recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *al)
{
    CHECK(s == in.sock[round_], "the ready socket is read");
    CHECK(b == (void *)entity && n <= sizeof(buf) - sizeof(IHeader), "into the message area, not past it");
    CHECK(*al >= sizeof(struct sockaddr_in6), "room for any address");
    filled = -1; from = a;
    if( fam == AF_INET ) { ((struct sockaddr_in *)a)->sin_family = AF_INET; *al = sizeof(struct sockaddr_in); }
    else { ((struct sockaddr_in6 *)a)->sin6_family = AF_INET6; *al = sizeof(struct sockaddr_in6); }
    return in.got[round_];
}
int IHeader_Fill(IHeader *h, BOOL rh, char *e, int len, const struct sockaddr *a, SOCKET s, sa_family_t f, const char *agent)
{
    CHECK(h == &buf.h && e == entity && len == in.got[round_], "the header is made from this datagram");
    CHECK(!rh && a == from && s == in.sock[round_] && f == fam, "with its sender's address, family and socket");
    CHECK(agent[0] == (fam == AF_INET ? '4' : '6'), "and agent");
    CHECK(filled == -1, "once");
    if( in.fill[round_] == 0 ) filled = round_;
    return in.fill[round_];
}
int MMgr_Send(const char *b, int len)
{
    CHECK(b == (char *)&buf && len == SOCKET_CONTEXT_LENGTH, "the whole buffer is handed on");
    CHECK(filled == round_, "only under the header of this very message");
    sent++; filled = -1;
    return 0;
}
static SOCKET sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    int done = round_ >= 0 && in.got[round_] >= 0 && in.fill[round_] == 0;
    CHECK(p == &Frontend && tv == NULL && r && !w, "waits for datagrams");
    CHECK(sent == done, "every readable message is handled, once; nothing else is");
    sent = 0;
    if( ++round_ >= 2 ) return INVALID_SOCKET;
    fam = in.fam[round_]; *d = &fam;
    return in.sock[round_];
}
int harness(void)
{
    int i;
    VP_LOAD();
    for( i = 0; i < 2; i++ ) ASSUME(in.sock[i] >= 0 && (in.fam[i] == AF_INET || in.fam[i] == AF_INET6) && in.got[i] >= -1 && in.got[i] <= (int)(sizeof(buf) - sizeof(IHeader)));
    Frontend.Select = sel;
    UdpFrontend_Work(NULL);
    CHECK(round_ == 2, "the next message is waited for whatever the last one was");
    CHECK(nalloc == nfree, "the buffer is released at the end");
    if( in.got[0] > 0 && in.fill[0] != 0 && in.fill[1] == 0 && in.got[1] > 0 ) REACH("bad then good");
    return 0;
}
