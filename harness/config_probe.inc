#include <utki/config.hpp>
@begin
#if defined(CFG_OS) && CFG_OS == CFG_OS_UNKNOWN
os:t_unknown
#endif
#if defined(CFG_OS) && CFG_OS == CFG_OS_LINUX
os:t_linux
#endif
#if defined(CFG_OS) && CFG_OS == CFG_OS_WINDOWS
os:t_windows
#endif
#if defined(CFG_OS) && CFG_OS == CFG_OS_MACOSX
os:t_macosx
#endif
#if defined(CFG_OS) && CFG_OS == CFG_OS_UNIX
os:t_unix
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_UNKNOWN
name:t_unknown
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_MACOSX
name:t_macosx
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_IOS
name:t_ios
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_ANDROID
name:t_android
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_SOLARIS
name:t_solaris
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_FREEBSD
name:t_freebsd
#endif
#if defined(CFG_OS_NAME) && CFG_OS_NAME == CFG_OS_NAME_EMSCRIPTEN
name:t_emscripten
#endif
#if defined(CFG_COMPILER) && CFG_COMPILER == CFG_COMPILER_UNKNOWN
compiler:t_unknown
#endif
#if defined(CFG_COMPILER) && CFG_COMPILER == CFG_COMPILER_GCC
compiler:t_gcc
#endif
#if defined(CFG_COMPILER) && CFG_COMPILER == CFG_COMPILER_MSVC
compiler:t_msvc
#endif
#if defined(CFG_COMPILER) && CFG_COMPILER == CFG_COMPILER_CLANG
compiler:t_clang
#endif
#if defined(CFG_CPU) && CFG_CPU == CFG_CPU_UNKNOWN
cpu:t_unknown
#endif
#if defined(CFG_CPU) && CFG_CPU == CFG_CPU_X86
cpu:t_x86
#endif
#if defined(CFG_CPU) && CFG_CPU == CFG_CPU_X86_64
cpu:t_x86_64
#endif
#if defined(CFG_CPU) && CFG_CPU == CFG_CPU_ARM
cpu:t_arm
#endif
#if defined(CFG_CPU) && CFG_CPU == CFG_CPU_WASM
cpu:t_wasm
#endif
#if defined(CFG_ENDIANNESS) && CFG_ENDIANNESS == CFG_ENDIANNESS_UNKNOWN
endianness:t_unknown
#endif
#if defined(CFG_ENDIANNESS) && CFG_ENDIANNESS == CFG_ENDIANNESS_LITTLE
endianness:t_little
#endif
#if defined(CFG_ENDIANNESS) && CFG_ENDIANNESS == CFG_ENDIANNESS_BIG
endianness:t_big
#endif
#ifdef CFG_CPU_BITS
bits: CFG_CPU_BITS
#endif
#ifdef CFG_CPU_VERSION
version: CFG_CPU_VERSION
#endif
#ifdef CFG_CPU_ARM_THUMB_VERSION
thumb: CFG_CPU_ARM_THUMB_VERSION
#endif
#ifdef CFG_CPP
cpp: CFG_CPP
#endif
#ifdef CFG_COMPILER_MSVC_TOOLS_V
tools: CFG_COMPILER_MSVC_TOOLS_V
#endif
#ifdef CFG_COMPILER_VERSION_MAJOR
major: CFG_COMPILER_VERSION_MAJOR
#endif
#ifdef CFG_COMPILER_VERSION_MINOR
minor: CFG_COMPILER_VERSION_MINOR
#endif
#ifdef CFG_COMPILER_VERSION_PATCH
patch: CFG_COMPILER_VERSION_PATCH
#endif
#ifdef CFG_IOS_DEPLOYMENT_TARGET
ios: CFG_IOS_DEPLOYMENT_TARGET
#endif
#ifdef CFG_MACOSX_DEPLOYMENT_TARGET
macosx: CFG_MACOSX_DEPLOYMENT_TARGET
#endif
#ifdef DLLEXPORT
export: DLLEXPORT
#endif
@end
