// Stand-in for the header of Apple's SDK: clang defines TARGET_OS_... macros by itself.
#pragma once
