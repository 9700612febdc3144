/*UNIT
{"kind":"proof","functions":["TcpFrontend_Work"],
 "link":[],"havoc":["IHeader_Fill","MMgr_Send","IPv4AddressToAsc","IPv6AddressToAsc","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","6"],"cost":4,"timeout":200,
 "trusted":["the kernel's accept, recv, close and select; the address-to-text conversions (used for logging)","the only state a round of the loop takes over from the round before is the message buffer, which is arbitrary at the start here, and the set of connections, which the stand-in for the puller keeps: two rounds from there stand for all"]}
*/
/* A query a TCP client sent is read to its end, however it was split, and handed on
   under a header filled from it; a connection is kept for the next query, or closed
   and forgotten. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#include "utils.h"
#undef SafeMalloc
#undef SafeFree
static void *vp_alloc(size_t n); static void vp_release(void *p);
#define SafeMalloc(n) vp_alloc(n)
#define SafeFree(p) vp_release(p)
#include "tcpfrontend.c"
BOOL Ipv6_Enabled;
typedef struct { int sock[2], conn[2], fam[2], tot[2], cut[2], fill[2]; _Bool listen[2], end[2]; unsigned char len[2][2]; } IN;
VP_INPUTS(IN)
static union { IHeader h; char b[SOCKET_CONTEXT_LENGTH]; } buf;
static int round_ = -1, filled, sent, nalloc, nfree, closed, added, deled, accepted, pos, bad;
static Address_Type peer; static char *entity = (char *)&buf + sizeof(IHeader);
static void *vp_alloc(size_t n){ CHECK(n == sizeof(buf), "a whole message buffer"); nalloc++; return &buf; }
static void vp_release(void *p){ CHECK(p == &buf, "the buffer is released"); nfree++; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
int IPv4AddressToAsc(const void *a, void *b){ ((char *)b)[0] = '4'; ((char *)b)[1] = 0; return 1; }
int IPv6AddressToAsc(const void *a, void *b){ ((char *)b)[0] = '6'; ((char *)b)[1] = 0; return 1; }
#define LEN (in.len[round_][0] * 256 + in.len[round_][1])
#define CONN (in.listen[round_] ? in.conn[round_] : in.sock[round_])
int close(int s){ CHECK(s == CONN, "only this connection is closed"); closed++; return 0; }
int accept(int s, struct sockaddr *a, socklen_t *al)
{
    CHECK(s == in.sock[round_] && in.listen[round_], "a connection is taken from a listening socket");
    CHECK(*al >= sizeof(struct sockaddr_in6), "room for any address");
    if( in.conn[round_] >= 0 ) { accepted = 1; if( in.fam[round_] == AF_INET ) ((struct sockaddr_in *)a)->sin_family = AF_INET; else ((struct sockaddr_in6 *)a)->sin6_family = AF_INET6; }
    return in.conn[round_];
}
/* the peer sends tot octets in two segments, then ends the stream or breaks it */
ssize_t recv(int s, void *b, size_t n, int f)
{
    int left = in.tot[round_] - pos, r, i;
    CHECK(s == CONN, "this connection is read");
    if( pos < 2 ) CHECK((int)n <= 2 - pos, "first comes the length");
    else CHECK((int)n <= 2 + LEN - pos && (char *)b >= entity && (char *)b + n <= (char *)(&buf + 1), "then a message of that length, into the message area, not past it");
    if( left <= 0 ) return n == 0 ? 0 : in.end[round_] ? -1 : 0;
    r = !(f & MSG_WAITALL) && pos < in.cut[round_] && in.cut[round_] < in.tot[round_] ? in.cut[round_] - pos : left;
    if( r > (int)n ) r = n;
    if( pos < 2 ) for( i = 0; i < r; i++ ) ((unsigned char *)b)[i] = in.len[round_][pos + i];
    else if( (char *)b != entity + pos - 2 ) bad = 1;
    pos += r;
    return r;
}
int IHeader_Fill(IHeader *h, BOOL rh, char *e, int len, const struct sockaddr *a, SOCKET s, sa_family_t f, const char *agent)
{
    CHECK(h == &buf.h && e == entity && pos >= 2 && !bad && len == LEN && pos == 2 + LEN, "the header is made from this whole message");
    CHECK(a == NULL && s == CONN, "with its connection to answer on");
    CHECK(agent[0] == (in.fam[round_] == AF_INET ? '4' : '6'), "and agent");
    CHECK(filled == -1, "once");
    if( in.fill[round_] == 0 ) filled = round_;
    return in.fill[round_];
}
int MMgr_Send(const char *b, int len)
{
    CHECK(b == (char *)&buf && len == SOCKET_CONTEXT_LENGTH, "the whole buffer is handed on");
    CHECK(filled == round_, "only under the header of this very message");
    sent++; filled = -1;
    return 0;
}
static int p_add(SocketPuller *p, SOCKET s, const void *d, int n)
{
    CHECK(p == &Frontend && s == CONN && in.listen[round_] && accepted, "a new connection is kept");
    CHECK(n == sizeof(Address_Type) && ((const Address_Type *)d)->family == in.fam[round_] && ((const struct sockaddr *)d)->sa_family == in.fam[round_], "with its address, so that it is not taken for a listening one");
    added++; return 0;
}
static int p_del(SocketPuller *p, SOCKET s){ CHECK(p == &Frontend && s == CONN && !in.listen[round_], "a kept connection is forgotten"); deled++; return 0; }
static SOCKET sel(SocketPuller *p, struct timeval *tv, void **d, BOOL r, BOOL w, int *err)
{
    CHECK(p == &Frontend && tv == NULL && r && !w, "waits for connections and queries");
    if( round_ >= 0 && (!in.listen[round_] || in.conn[round_] >= 0) )
    {
        int n = in.len[round_][0] * 256 + in.len[round_][1];
        int whole = in.tot[round_] >= 2 && n <= (int)(sizeof(buf) - sizeof(IHeader)) && in.tot[round_] >= 2 + n;
        CHECK(sent == (whole && in.fill[round_] == 0), "every whole readable query is handled, once; nothing else is");
        CHECK(closed == !whole, "a connection is closed when it ended or got out of step, and only then");
        if( in.listen[round_] ) CHECK(added == whole && !deled, "a new connection is kept unless it is closed");
        else CHECK(!added && deled == !whole, "a kept connection is forgotten if it is closed");
    } else CHECK(!sent && !closed && !added && !deled, "without a connection nothing happens");
    sent = closed = added = deled = accepted = pos = bad = 0; filled = -1;
    if( ++round_ >= 2 ) return INVALID_SOCKET;
    memset(&peer, 0, sizeof(peer)); peer.family = in.fam[round_];
    if( !in.listen[round_] ) ((struct sockaddr *)&peer.Addr)->sa_family = in.fam[round_];
    *d = &peer;
    return in.sock[round_];
}
int harness(void)
{
    int i;
    VP_LOAD();
    for( i = 0; i < 2; i++ ) ASSUME(in.sock[i] >= 0 && (in.fam[i] == AF_INET || in.fam[i] == AF_INET6) && in.tot[i] >= 0 && in.tot[i] <= 65537 && in.cut[i] >= 0 && in.cut[i] <= 65537 && in.conn[i] >= -1 && in.conn[i] != in.sock[i]);
    Frontend.Select = sel; Frontend.Add = p_add; Frontend.Del = p_del;
    TcpFrontend_Work(NULL);
    CHECK(round_ == 2, "the next message is waited for whatever the last one was");
    CHECK(nalloc == nfree, "the buffer is released at the end");
    if( in.tot[0] > 12 && in.cut[0] == 1 && in.fill[0] == 0 && in.fill[1] == 0 && in.tot[1] > 9 ) REACH("two queries");
    return 0;
}
