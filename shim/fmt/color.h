#pragma once
#include_next <fmt/color.h>
namespace fmt { inline namespace v9 {
template <typename... A> inline void print(std::FILE *f, const text_style &ts, format_string<A...> s, A &&... a) {
  vprint(f, ts, string_view(s), fmt::make_format_args(a...));
}
} }
