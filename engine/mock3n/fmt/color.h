// fmt 9.1 (installed) lacks print(FILE*, text_style, format_string, ...), which the sources use; add it
#pragma once
#include_next <fmt/color.h>
namespace fmt {
template <class... A> void print(std::FILE *f, const text_style &ts, format_string<A...> s, A &&...a) { std::string t = fmt::vformat(ts, string_view(s), fmt::make_format_args(a...)); std::fwrite(t.data(), 1, t.size(), f); }
}
