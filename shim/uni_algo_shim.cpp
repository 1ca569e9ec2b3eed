#include <uni_algo/all.h>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
namespace
{
icu::UnicodeString from(std::string_view s)
{
    return icu::UnicodeString::fromUTF8(icu::StringPiece(s.data(), (int)s.size()));
}
std::string to(const icu::UnicodeString& u)
{
    std::string r;
    u.toUTF8String(r);
    return r;
}
}    // namespace
namespace una::cases
{
std::string to_casefold_utf8(std::string_view s) { return to(from(s).foldCase()); }
}    // namespace una::cases
namespace una::caseless
{
int compare_utf8(std::string_view a, std::string_view b)
{
    auto x = from(a).foldCase(), y = from(b).foldCase();
    return x.compareCodePointOrder(y);
}
}    // namespace una::caseless
namespace una::norm
{
std::string to_nfc_utf8(std::string_view s)
{
    UErrorCode e = U_ZERO_ERROR;
    return to(icu::Normalizer2::getNFCInstance(e)->normalize(from(s), e));
}
std::string to_nfd_utf8(std::string_view s)
{
    UErrorCode e = U_ZERO_ERROR;
    return to(icu::Normalizer2::getNFDInstance(e)->normalize(from(s), e));
}
}    // namespace una::norm
