#pragma once
#include <string>
#include <string_view>
namespace una::norm
{
std::string to_nfc_utf8(std::string_view);
std::string to_nfd_utf8(std::string_view);
}    // namespace una::norm
