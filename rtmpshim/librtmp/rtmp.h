// Stand-in for the patched librtmp of the empty submodule 3rdparty/rtmpdump: the installed librtmp with the hooks the
// code expects from the patched one. Input and output of the library go through the hook (see rtmpshim.cpp).
#ifndef VERIF_RTMP_SHIM
#define VERIF_RTMP_SHIM
#include_next <librtmp/rtmp.h>
struct SpsRtmp;
struct SpsSockBuf { void* rtmp; };
struct RTMP_HOOK {
    void* rtmp_obj;
    int (*RTMP_Connect)(SpsRtmp*, RTMPPacket*);
    int (*RTMP_TLS_Accept)(SpsRtmp*, void*);
    int (*RTMPSockBuf_Send)(SpsSockBuf*, const char*, int);
    int (*RTMPSockBuf_Fill)(SpsSockBuf*, char*, int);
    int (*RTMPSockBuf_Close)(SpsSockBuf*);
    int (*RTMP_IsConnected)(SpsRtmp*);
    int (*RTMP_Socket)(SpsRtmp*);
};
// the library was built with more fields at the end than its header shows
struct SpsRtmp : ::RTMP { char more[512]; RTMP_HOOK* hook; int m_pktReadonly; int fd; };
void sps_RTMP_Init(SpsRtmp*);
void RTMP_Init_Hook(SpsRtmp*, RTMP_HOOK*);
void sps_RTMP_Close(SpsRtmp*);
int sps_RTMP_Connect(SpsRtmp*, RTMPPacket*);
int sps_RTMP_SendPacket(SpsRtmp*, RTMPPacket*, int);
int sps_RTMP_ReadPacket(SpsRtmp*, RTMPPacket*);
int sps_AMF_Decode(AMFObject*, const char*, int, int);
#define AMF_Decode(o, b, n, d) sps_AMF_Decode(o, b, n, d)
#define RTMP_Init(r) sps_RTMP_Init(r)
#define RTMP_Close(r) sps_RTMP_Close(r)
#define RTMP_Connect(r, p) sps_RTMP_Connect(r, p)
#define RTMP_SendPacket(r, p, q) sps_RTMP_SendPacket(r, p, q)
#define RTMP_ReadPacket(r, p) sps_RTMP_ReadPacket(r, p)
#define RTMP SpsRtmp
#define RTMPSockBuf SpsSockBuf
#endif
