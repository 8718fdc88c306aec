#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<std::string>("(std::string)"),
    make_wsig<bool, bool, bool>("(bool,bool,bool)"),
    make_sig<int, std::optional<int>>("(int,opt<int>)"),
    make_sig<std::optional<bool>>("(opt<bool>)"),
    make_sig<std::vector<std::string_view>>("(vec<std::string_view>)"),
    make_sig<std::vector<std::tuple<bool>>>("(vec<tup<bool>>)"),
    make_wsig<std::vector<std::variant<std::monostate, std::monostate>>>("(vec<var<mono,mono>>)"),
    make_sig<std::size_t, std::vector<int>>("(std::size_t,vec<int>)"),
    make_sig<std::variant<std::optional<int>, std::string>>("(var<opt<int>,std::string>)"),
    make_sig<std::variant<std::tuple<int>, std::array<int, 2>>>("(var<tup<int>,arr2<int>>)"),
    make_sig<std::optional<std::variant<int, std::vector<int>>>, bool>("(opt<var<int,vec<int>>>,bool)"),
    make_wsig<std::optional<std::tuple<std::vector<int>, bool>>, std::variant<int, std::monostate>>("(opt<tup<vec<int>,bool>>,var<int,mono>)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
