/*UNIT
{"kind":"proof","functions":["MsgContext_SendBack","MsgContext_IsFromTCP","MsgContext_SendBackRefusedMessage","GetAddressLength"],
 "link":["iheader.c","utils.c"],
 "variants":[{"name":"plain","defines":["REFUSE=0"]},{"name":"refused","defines":["REFUSE=1"]}],
 "cbmc":["--unwind","4"],"cost":5,"timeout":300,
 "trusted":["send(), sendto(): stand-ins that record their arguments and return anything"]}
*/
/* Whatever is sent back goes out in one call, on the query's own socket, to the
   query's own address, and is exactly the message. */
#include "vp.h"
#include <string.h>
#include "iheader.h"
typedef struct { int sock, len, ret, fam; unsigned short port; _Bool rh; unsigned char b2, b3; } IN;
VP_INPUTS(IN)
static struct { IHeader h; unsigned char e[3700]; } msg;
static int nsend, nsendto, s_sock, s_len, s_alen, s_port; static const unsigned char *s_buf; static const void *s_to;
ssize_t send(int s, const void *b, size_t n, int f){ nsend++; s_sock = s; s_buf = b; s_len = n; return in.ret; }
ssize_t sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t al)
{ nsendto++; s_sock = s; s_buf = b; s_len = n; s_to = a; s_alen = al; s_port = ((const struct sockaddr_in *)a)->sin_port; return in.ret; }
void harness(void)
{
    int r;
    VP_LOAD();
    ASSUME(in.len >= 12 && in.len <= 3600 && (in.fam == AF_UNSPEC || in.fam == AF_INET || in.fam == AF_INET6));
    msg.h.SendBackSocket = in.sock; msg.h.EntityLength = in.len; msg.h.BackAddress.family = in.fam; msg.h.ReturnHeader = in.rh;
    msg.h.BackAddress.Addr.Addr4.sin_port = in.port;
    msg.e[0] = 0x12; msg.e[1] = 0x34; msg.e[2] = in.b2; msg.e[3] = in.b3; msg.e[5] = 1; msg.e[11] = 0x77;
#if REFUSE
    r = MsgContext_SendBackRefusedMessage((MsgContext *)&msg);
    CHECK((msg.e[2] & 0x80) && (msg.e[3] & 0x80), "a refusal is marked as a response");
    CHECK((msg.e[2] & 0x7f) == (in.b2 & 0x7f) && (msg.e[3] & 0x70) == (in.b3 & 0x70), "no other flag of the query changes");
#else
    r = MsgContext_SendBack((MsgContext *)&msg);
    CHECK(msg.e[2] == in.b2 && msg.e[3] == in.b3, "the message is sent as it is");
#endif
    CHECK(msg.e[0] == 0x12 && msg.e[1] == 0x34 && msg.e[5] == 1 && msg.e[11] == 0x77, "id and question stay");
    CHECK(nsend + nsendto == 1 && s_sock == in.sock, "it is sent once, on the query's socket");
    if( in.fam == AF_UNSPEC )
    {
        CHECK(nsend == 1 && s_len == in.len + 2 && s_buf == msg.e - 2, "over TCP the length prefix and the message are sent");
        CHECK(s_buf[0] == in.len >> 8 && s_buf[1] == (in.len & 255), "the prefix is the message length");
        REACH("tcp");
    } else {
        CHECK(nsendto == 1 && s_port == in.port && s_to == (const void *)&msg.h.BackAddress.Addr, "over UDP it goes to the client's address");
        CHECK(s_alen == (in.fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "with the address length of its family");
        CHECK(in.rh ? (s_buf == (unsigned char *)&msg && s_len == in.len + (int)sizeof(IHeader)) : (s_buf == msg.e && s_len == in.len), "the datagram is exactly the message (with the internal header between own parts)");
        REACH("udp");
    }
    CHECK((r == 0) == (in.ret == s_len), "a short or failed send is reported");
}
