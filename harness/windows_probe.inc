#include <utki/windows.hpp>
@begin
#ifdef VERIF_WINDOWS_H
header: there
#else
header: not there
#endif
#ifdef _WINSOCKAPI_
api: defined(_WINSOCKAPI_)
#else
api: undefined
#endif
#ifdef _WINSOCK_H
sock: defined(_WINSOCK_H)
#else
sock: undefined
#endif
#ifdef min
leak: minimum
#endif
#ifdef max
leak: maximum
#endif
#ifdef DELETE
leak: deletion
#endif
@end
