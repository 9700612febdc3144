/*UNIT
{"kind":"proof","functions":["UdpM_Works","UdpM_Cleanup"],
 "link":[],"havoc":["IHeader_Fill","IPMiscMapping_Process","MsgContext_IsBlocked","MsgContext_SendBack","MsgContext_AddFakeEdns","DNSCache_AddItemsToCache","DomainStatistic_Add","ShowErrorMessage","ShowTimeOutMessage","ShowNormalMessage","ShowBlockedMessage","AddressList_GetOne","Array_Free","AddressList_Advance","AddressList_Init","AddressList_Add_From_String","AddressList_GetOneBySubscript","AddressList_GetPtrListOfFamily","ModuleContext_Init","ModuleContext_Free","StringList_Init","StringListIterator_Init","GetAddressLength","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","6","--unwindset","UdpM_Works.0:18,UdpM_Works.1:18,UdpM_Works.2:18,UdpM_Works.3:18"],"cost":4,"timeout":200,
 "trusted":["the kernel's socket, select and recvfrom","assumed contracts: IHeader_Fill (fill unit), filters (C10), pending queries and delivery (C03), cache (C05)","the state a round of the loop takes over from the round before is the message buffer and the socket, both arbitrary at the start here: two rounds from there stand for all"]}
*/
/* the same unit decides that what a filter rejects is discarded */
#include "../C21/udprecv.c"
