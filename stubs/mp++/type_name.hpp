#ifndef VERIF_STUB_MPPP_TYPE_NAME_HPP
#define VERIF_STUB_MPPP_TYPE_NAME_HPP
#include <string>
#include <string_view>
namespace mppp
{
template <typename T>
inline std::string type_name()
{
    // Cut the type out of the compiler's own spelling of this function.
    std::string_view s = __PRETTY_FUNCTION__;
    auto b = s.find("T = ");
    if (b == std::string_view::npos) return std::string(s);
    s.remove_prefix(b + 4);
    auto e = s.find(';');
    if (e == std::string_view::npos) e = s.rfind(']');
    return std::string(s.substr(0, e));
}
} // namespace mppp
#endif
