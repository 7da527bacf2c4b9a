// stands for the header of Windows, which includes <winsock.h> unless that is included already
#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
windows: included
#if !defined(_WINSOCKAPI_) && !defined(_WINSOCK_H)
winsock: included
#define _WINSOCKAPI_
#define _WINSOCK_H
#endif
#ifndef NOMINMAX
#define min(a, b) (((a) < (b)) ? (a) : (b))
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#define DELETE (0x00010000L)
#endif
