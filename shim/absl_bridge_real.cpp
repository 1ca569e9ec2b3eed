// Compiled with the installed abseil's own options: forwards to the installed library.
#include <absl/strings/escaping.h>
#include <absl/strings/numbers.h>
#include <absl/time/time.h>
#include <string>
#define SV absl::string_view(p, n)
std::string vb_format_time(const char* p, size_t n, absl::Time t, absl::TimeZone z)
{
    return absl::FormatTime(SV, t, z);
}
std::string vb_utf8safecescape(const char* p, size_t n) { return absl::Utf8SafeCEscape(SV); }
std::string vb_cescape(const char* p, size_t n) { return absl::CEscape(SV); }
std::string vb_websafe(const char* p, size_t n) { return absl::WebSafeBase64Escape(SV); }
bool vb_unwebsafe(const char* p, size_t n, std::string* o)
{
    return absl::WebSafeBase64Unescape(SV, o);
}
std::string vb_base64(const char* p, size_t n) { return absl::Base64Escape(SV); }
bool vb_unbase64(const char* p, size_t n, std::string* o) { return absl::Base64Unescape(SV, o); }
std::string vb_hex(const char* p, size_t n) { return absl::BytesToHexString(SV); }
std::string vb_unhex(const char* p, size_t n) { return absl::HexStringToBytes(SV); }
bool vb_i32(const char* p, size_t n, int* v, int b)
{
    return absl::numbers_internal::safe_strto32_base(SV, v, b);
}
bool vb_i64(const char* p, size_t n, int64_t* v, int b)
{
    return absl::numbers_internal::safe_strto64_base(SV, v, b);
}
bool vb_u32(const char* p, size_t n, uint32_t* v, int b)
{
    return absl::numbers_internal::safe_strtou32_base(SV, v, b);
}
bool vb_u64(const char* p, size_t n, uint64_t* v, int b)
{
    return absl::numbers_internal::safe_strtou64_base(SV, v, b);
}
