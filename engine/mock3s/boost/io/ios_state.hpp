#pragma once
#include <ios>
namespace boost { namespace io { struct ios_base_all_saver { std::ios_base &b; std::ios_base::fmtflags f; std::streamsize p, w; ios_base_all_saver(std::ios_base &s) : b(s), f(s.flags()), p(s.precision()), w(s.width()) {} ~ios_base_all_saver() { b.flags(f); b.precision(p); b.width(w); } }; typedef ios_base_all_saver ios_all_saver; } }
