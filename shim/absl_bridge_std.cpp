// The functions of abseil taking string_view, for code compiled with std::string_view (see
// absl/base/options.h here): the installed library only has them for its own string_view class.
#include <absl/strings/ascii.h>
#include <absl/strings/escaping.h>
#include <absl/strings/match.h>
#include <absl/strings/numbers.h>
#include <absl/strings/str_cat.h>
#include <absl/strings/str_split.h>
#include <absl/time/time.h>
#include <string>
#include <strings.h>
std::string vb_format_time(const char*, size_t, absl::Time, absl::TimeZone);
std::string vb_utf8safecescape(const char*, size_t);
std::string vb_cescape(const char*, size_t);
std::string vb_websafe(const char*, size_t);
bool vb_unwebsafe(const char*, size_t, std::string*);
std::string vb_base64(const char*, size_t);
bool vb_unbase64(const char*, size_t, std::string*);
std::string vb_hex(const char*, size_t);
std::string vb_unhex(const char*, size_t);
bool vb_i32(const char*, size_t, int*, int);
bool vb_i64(const char*, size_t, int64_t*, int);
bool vb_u32(const char*, size_t, uint32_t*, int);
bool vb_u64(const char*, size_t, uint64_t*, int);

namespace absl
{
ABSL_NAMESPACE_BEGIN
#define A s.data(), s.size()
std::string FormatTime(std::string_view s, Time t, TimeZone z) { return vb_format_time(A, t, z); }
std::string Utf8SafeCEscape(std::string_view s) { return vb_utf8safecescape(A); }
std::string CEscape(std::string_view s) { return vb_cescape(A); }
std::string WebSafeBase64Escape(std::string_view s) { return vb_websafe(A); }
void WebSafeBase64Escape(std::string_view s, std::string* o) { *o = vb_websafe(A); }
bool WebSafeBase64Unescape(std::string_view s, std::string* o) { return vb_unwebsafe(A, o); }
std::string Base64Escape(std::string_view s) { return vb_base64(A); }
void Base64Escape(std::string_view s, std::string* o) { *o = vb_base64(A); }
bool Base64Unescape(std::string_view s, std::string* o) { return vb_unbase64(A, o); }
std::string BytesToHexString(std::string_view s) { return vb_hex(A); }
std::string HexStringToBytes(std::string_view s) { return vb_unhex(A); }
namespace numbers_internal
{
    bool safe_strto32_base(std::string_view s, int* v, int b) { return vb_i32(A, v, b); }
    bool safe_strto64_base(std::string_view s, int64_t* v, int b) { return vb_i64(A, v, b); }
    bool safe_strtou32_base(std::string_view s, uint32_t* v, int b) { return vb_u32(A, v, b); }
    bool safe_strtou64_base(std::string_view s, uint64_t* v, int b) { return vb_u64(A, v, b); }
}    // namespace numbers_internal
bool EqualsIgnoreCase(std::string_view a, std::string_view b) noexcept
{
    return a.size() == b.size() && strncasecmp(a.data(), b.data(), a.size()) == 0;
}
bool StartsWithIgnoreCase(std::string_view a, std::string_view b) noexcept
{
    return a.size() >= b.size() && EqualsIgnoreCase(a.substr(0, b.size()), b);
}
bool EndsWithIgnoreCase(std::string_view a, std::string_view b) noexcept
{
    return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b);
}
namespace strings_internal
{
    std::string CatPieces(std::initializer_list<std::string_view> l)
    {
        std::string r;
        for (auto s : l)
            r.append(A);
        return r;
    }
    void AppendPieces(std::string* d, std::initializer_list<std::string_view> l)
    {
        std::string r;
        for (auto s : l)
            r.append(A);
        d->append(r);
    }
}    // namespace strings_internal
std::string StrCat(const AlphaNum& a, const AlphaNum& b)
{
    return strings_internal::CatPieces({a.Piece(), b.Piece()});
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c)
{
    return strings_internal::CatPieces({a.Piece(), b.Piece(), c.Piece()});
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d)
{
    return strings_internal::CatPieces({a.Piece(), b.Piece(), c.Piece(), d.Piece()});
}
void StrAppend(std::string* o, const AlphaNum& a)
{
    strings_internal::AppendPieces(o, {a.Piece()});
}
void StrAppend(std::string* o, const AlphaNum& a, const AlphaNum& b)
{
    strings_internal::AppendPieces(o, {a.Piece(), b.Piece()});
}
void StrAppend(std::string* o, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c)
{
    strings_internal::AppendPieces(o, {a.Piece(), b.Piece(), c.Piece()});
}
void StrAppend(
    std::string* o, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d)
{
    strings_internal::AppendPieces(o, {a.Piece(), b.Piece(), c.Piece(), d.Piece()});
}
std::string_view ByChar::Find(std::string_view t, size_t pos) const
{
    size_t f = t.find(c_, pos);
    if (f == std::string_view::npos)
        return std::string_view(t.data() + t.size(), 0);
    return t.substr(f, 1);
}
ByString::ByString(std::string_view sp) : delimiter_(sp.data(), sp.size()) {}
std::string_view ByString::Find(std::string_view t, size_t pos) const
{
    if (delimiter_.size() == 1)
        return ByChar(delimiter_[0]).Find(t, pos);
    if (delimiter_.empty() && !t.empty())
        return std::string_view(t.data() + pos + 1, 0);
    size_t f = t.find(delimiter_, pos);
    if (f == std::string_view::npos)
        return std::string_view(t.data() + t.size(), 0);
    return t.substr(f, delimiter_.size());
}
ByAnyChar::ByAnyChar(std::string_view sp) : delimiters_(sp.data(), sp.size()) {}
std::string_view ByAnyChar::Find(std::string_view t, size_t pos) const
{
    size_t f = t.find_first_of(delimiters_, pos);
    if (f == std::string_view::npos)
        return std::string_view(t.data() + t.size(), 0);
    return t.substr(f, 1);
}
ABSL_NAMESPACE_END
}    // namespace absl
