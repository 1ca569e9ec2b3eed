#pragma once
#include <string>
#include <string_view>
namespace una::cases
{
std::string to_casefold_utf8(std::string_view);
}
namespace una::caseless
{
int compare_utf8(std::string_view, std::string_view);
}
