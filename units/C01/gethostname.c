/*UNIT
{"kind":"proof",
 "functions":["DNSGetHostName"],
 "enforce":"DNSGetHostName",
 "loops":[{"file":"dnsparser.c","function":"DNSGetHostName","loop":0,"count":1,"kind":"while",
   "needs":["NameItr","BufferItr","LabelsLength","Redirected","Jumps","LabelCount"],
   "text":"__CPROVER_assigns(NameItr, BufferItr, LabelsLength, Redirected, Jumps, LabelCount; buffer != 0: __CPROVER_object_upto(buffer, BufferLength)) __CPROVER_loop_invariant(VP_INV_GETHOSTNAME) __CPROVER_decreases((buffer != 0 ? (BufferLength - (BufferItr - buffer)) + (127 - Jumps) : (int)(DNSBodyLength - (NameItr - DNSBody))))"}],
 "cost":60, "timeout":600}
*/
/* Any name start inside (or one past) any message, of any size up to the
   largest a transport can carry. */
#include "vp.h"
#include "common.h"
#define MAXMSG 65535
typedef struct { uint16_t len; uint16_t at; uint16_t buflen; _Bool have_buf; } IN;
VP_INPUTS(IN)

static int post_name(const char *b, int len, const char *n, char *buf, int buflen, int ret)
{
    if( ret < -1 || ret == 0 ) return 0;
    if( ret < 0 ) return 1;
    return ret <= len - (n - b);
}

#define VP_INV_GETHOSTNAME \
   (__CPROVER_same_object(NameItr, DNSBody) && \
    __CPROVER_POINTER_OFFSET(NameItr) >= __CPROVER_POINTER_OFFSET(DNSBody) && \
    __CPROVER_POINTER_OFFSET(NameItr) < __CPROVER_POINTER_OFFSET(DNSBody) + DNSBodyLength && \
   LabelCount == (int)*(unsigned char *)NameItr && Jumps >= 0 && Jumps <= 127 && \
   (Redirected == 0 || Redirected == 1) && LabelsLength >= 0 && \
   (Redirected == 0 ? LabelsLength == NameItr - NameStart : (LabelsLength >= 2 && LabelsLength <= DNSBodyLength - (NameStart - DNSBody))) && \
   (buffer == 0 ? (BufferItr == 0 && Redirected == 0) : \
     (__CPROVER_same_object(BufferItr, buffer) && __CPROVER_POINTER_OFFSET(BufferItr) >= __CPROVER_POINTER_OFFSET(buffer) && BufferItr - buffer <= BufferLength)))

int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart, char *buffer, int BufferLength)
VP_REQUIRES(DNSBody != 0 && DNSBodyLength >= 0)
VP_ENSURES(post_name(DNSBody, DNSBodyLength, NameStart, buffer, BufferLength, VP_RET))
VP_ASSIGNS(buffer != 0: __CPROVER_object_upto(buffer, BufferLength))
;
#include <string.h>
#include "stubs/memcpy_check.h"
#include "dnsparser.c"

void harness(void)
{
    VP_LOAD();
    ASSUME(in.len >= 1 && in.at <= in.len && in.buflen >= 1);
    char *body = malloc(in.len), *buf = in.have_buf ? malloc(in.buflen) : NULL;
    int r = DNSGetHostName(body, in.len, body + in.at, buf, in.have_buf ? in.buflen : 0);
    REACH("returned");
}
