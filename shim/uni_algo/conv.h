#pragma once
#include <string>
#include <string_view>
namespace una
{
std::wstring utf8to16(std::string_view);
std::string utf16to8(std::wstring_view);
}    // namespace una
