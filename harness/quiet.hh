// Silences what the library prints on the standard streams.
#pragma once
#include <iostream>
namespace pt {
struct NullBuf : std::streambuf { int overflow( int c ) override { return c == EOF ? 0 : c; } std::streamsize xsputn( char const *, std::streamsize n ) override { return n; } };
inline void quiet() { static NullBuf nb; std::cerr.rdbuf(&nb); std::cout.rdbuf(&nb); std::clog.rdbuf(&nb); }
} // namespace pt
