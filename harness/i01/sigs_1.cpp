#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_wsig<>("()"),
    make_sig<std::string, int>("(std::string,int)"),
    make_sig<std::optional<std::string>>("(opt<std::string>)"),
    make_sig<std::optional<std::array<int, 2>>>("(opt<arr2<int>>)"),
    make_sig<std::vector<int>>("(vec<int>)"),
    make_wsig<std::vector<std::array<int, 2>>>("(vec<arr2<int>>)"),
    make_sig<std::vector<std::pair<std::vector<int>, int>>>("(vec<pair<vec<int>,int>>)"),
    make_sig<std::vector<std::monostate>, int>("(vec<mono>,int)"),
    make_sig<std::variant<int, int>>("(var<int,int>)"),
    make_sig<std::variant<int, std::variant<std::monostate, bool>>>("(var<int,var<mono,bool>>)"),
    make_wsig<int, std::variant<std::monostate, std::monostate>>("(int,var<mono,mono>)"),
    make_sig<std::vector<std::tuple<std::variant<std::monostate, std::monostate>, std::optional<int>, int>>>("(vec<tup<var<mono,mono>,opt<int>,int>>)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
