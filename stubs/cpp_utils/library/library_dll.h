// Stand-in for the header CMake generates from library_dll.h.in: everything is linked statically here.
#pragma once
#define CPP_UTILS_DllAPI
