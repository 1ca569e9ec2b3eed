#pragma once
// Offline stand-in for a newer abseil's str_format.h: the abseil that is installed here has no
// "%v"/AbslStringify. Type-erased, covers the conversions the sources use.
#include <absl/strings/string_view.h>
#include <absl/time/time.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace absl
{
struct FormatSpecShim
{
    std::string_view s;
    FormatSpecShim(const char* p) : s(p) {}
    FormatSpecShim(std::string_view p) : s(p) {}
    FormatSpecShim(const std::string& p) : s(p) {}
};
template <class... Args>
using FormatSpec = FormatSpecShim;

struct FormatSinkShim
{
    std::string out;
    void Append(std::string_view v) { out.append(v.data(), v.size()); }
    void Append(size_t n, char c) { out.append(n, c); }
};

namespace sfshim
{
    template <class T, class = void>
    struct has_stringify : std::false_type
    {
    };
    template <class T>
    struct has_stringify<
        T,
        std::void_t<decltype(AbslStringify(std::declval<FormatSinkShim&>(),
                                           std::declval<const T&>()))>> : std::true_type
    {
    };

    struct Arg
    {
        enum Kind
        {
            I,
            U,
            D,
            S,
            P,
            B
        } k;
        long long i = 0;
        unsigned long long u = 0;
        long double d = 0;
        std::string s;
        const void* p = nullptr;
    };
    inline std::string one(std::string spec, char conv, const Arg& a)
    {
        if (conv == 'v')
        {
            switch (a.k)
            {
            case Arg::I:
                return std::to_string(a.i);
            case Arg::U:
                return std::to_string(a.u);
            case Arg::B:
                return a.i ? "true" : "false";
            case Arg::S:
                return a.s;
            case Arg::D:
                conv = 'g';
                break;
            case Arg::P:
                conv = 'p';
                break;
            }
        }
        if (conv == 's' && a.k != Arg::S)
            conv = a.k == Arg::D ? 'g' : a.k == Arg::P ? 'p' : a.k == Arg::U ? 'u' : 'd';
        char buf[512];
        switch (conv)
        {
        case 's':
        {
            std::string f = "%" + spec + "s";
            int n = snprintf(nullptr, 0, f.c_str(), a.s.c_str());
            if (spec.empty())
                return a.s;
            std::string r(n + 1, 0);
            snprintf(&r[0], n + 1, f.c_str(), a.s.c_str());
            r.resize(n);
            return r;
        }
        case 'c':
            return std::string(1, (char)(a.k == Arg::U ? (long long)a.u : a.i));
        case 'p':
        {
            const void* p = a.p;
            if (a.k == Arg::S)
                p = nullptr;
            snprintf(buf, sizeof buf, ("%" + spec + "p").c_str(), p);
            return buf;
        }
        case 'd':
        case 'i':
            snprintf(buf,
                     sizeof buf,
                     ("%" + spec + (a.k == Arg::U ? "llu" : "lld")).c_str(),
                     a.k == Arg::U ? (long long)a.u : a.k == Arg::D ? (long long)a.d : a.i);
            return buf;
        case 'u':
        case 'x':
        case 'X':
        case 'o':
            snprintf(buf,
                     sizeof buf,
                     ("%" + spec + "ll" + conv).c_str(),
                     a.k == Arg::U ? a.u : (unsigned long long)a.i);
            return buf;
        default:
            snprintf(buf,
                     sizeof buf,
                     ("%" + spec + "L" + conv).c_str(),
                     a.k == Arg::D ? a.d : a.k == Arg::U ? (long double)a.u : (long double)a.i);
            return buf;
        }
    }
    inline std::string format(std::string_view f, const std::vector<Arg>& args)
    {
        std::string r;
        size_t ai = 0;
        for (size_t i = 0; i < f.size(); ++i)
        {
            if (f[i] != '%')
            {
                r += f[i];
                continue;
            }
            ++i;
            if (i < f.size() && f[i] == '%')
            {
                r += '%';
                continue;
            }
            std::string spec;
            while (i < f.size() && (strchr("-+ #0123456789.", f[i]) != nullptr && f[i]))
                spec += f[i++];
            while (i < f.size() && strchr("hlqjzLt", f[i]) && f[i])
                ++i;
            if (i < f.size() && ai < args.size())
                r += one(spec, f[i], args[ai++]);
            else
                r += "%!";
        }
        return r;
    }
    template <class T>
    Arg make(const T& v)
    {
        Arg a;
        if constexpr (std::is_same_v<T, bool>)
        {
            a.k = Arg::B;
            a.i = v;
        }
        else if constexpr (std::is_enum_v<T>)
        {
            a.k = Arg::I;
            a.i = (long long)v;
        }
        else if constexpr (std::is_integral_v<T>)
        {
            if (std::is_signed_v<T>)
            {
                a.k = Arg::I;
                a.i = (long long)v;
            }
            else
            {
                a.k = Arg::U;
                a.u = (unsigned long long)v;
            }
        }
        else if constexpr (std::is_floating_point_v<T>)
        {
            a.k = Arg::D;
            a.d = v;
        }
        else if constexpr (std::is_same_v<T, std::nullptr_t>)
        {
            a.k = Arg::P;
        }
        else if constexpr (std::is_convertible_v<const T&, const char*>)
        {
            a.k = Arg::S;
            const char* p = v;
            a.s = p ? p : "";
        }
        else if constexpr (std::is_convertible_v<const T&, std::string_view>)
        {
            a.k = Arg::S;
            a.s = std::string(std::string_view(v));
        }
        else if constexpr (std::is_same_v<T, absl::Duration>)
        {
            a.k = Arg::S;
            a.s = absl::FormatDuration(v);
        }
        else if constexpr (has_stringify<T>::value)
        {
            a.k = Arg::S;
            FormatSinkShim sk;
            AbslStringify(sk, v);
            a.s = sk.out;
        }
        else if constexpr (std::is_pointer_v<T>)
        {
            a.k = Arg::P;
            a.p = reinterpret_cast<const void*>(v);
        }
        else
        {
            static_assert(std::is_pointer_v<T>, "str_format shim: unsupported argument type");
        }
        return a;
    }
    template <class... A>
    std::string run(const FormatSpecShim& f, const A&... a)
    {
        return format(f.s, std::vector<Arg>{make<std::decay_t<const A&>>(a)...});
    }
}    // namespace sfshim

template <class... A>
std::string StrFormat(const FormatSpecShim& f, const A&... a)
{
    return sfshim::run(f, a...);
}
template <class... A>
std::string& StrAppendFormat(std::string* dst, const FormatSpecShim& f, const A&... a)
{
    dst->append(sfshim::run(f, a...));
    return *dst;
}
template <class Sink, class... A>
bool Format(Sink* sink, const FormatSpecShim& f, const A&... a)
{
    if constexpr (std::is_same_v<Sink, std::string>)
        sink->append(sfshim::run(f, a...));
    else if constexpr (std::is_same_v<Sink, std::FILE>)
    {
        auto s = sfshim::run(f, a...);
        fwrite(s.data(), 1, s.size(), sink);
    }
    else
        sink->Append(sfshim::run(f, a...));
    return true;
}
template <class... A>
int FPrintF(std::FILE* fp, const FormatSpecShim& f, const A&... a)
{
    auto s = sfshim::run(f, a...);
    return (int)fwrite(s.data(), 1, s.size(), fp);
}
template <class... A>
int PrintF(const FormatSpecShim& f, const A&... a)
{
    return FPrintF(stdout, f, a...);
}
template <class... A>
int SNPrintF(char* out, size_t n, const FormatSpecShim& f, const A&... a)
{
    auto s = sfshim::run(f, a...);
    if (n)
    {
        size_t m = s.size() < n - 1 ? s.size() : n - 1;
        memcpy(out, s.data(), m);
        out[m] = 0;
    }
    return (int)s.size();
}
}    // namespace absl
