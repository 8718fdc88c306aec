#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<std::size_t>("(std::size_t)"),
    make_sig<bool, int>("(bool,int)"),
    make_sig<std::optional<int>, std::optional<int>>("(opt<int>,opt<int>)"),
    make_sig<std::optional<std::vector<int>>>("(opt<vec<int>>)"),
    make_wsig<std::vector<std::monostate>>("(vec<mono>)"),
    make_sig<std::vector<std::optional<int>>>("(vec<opt<int>>)"),
    make_sig<std::vector<std::variant<int, std::monostate>>>("(vec<var<int,mono>>)"),
    make_sig<std::optional<int>, std::vector<int>>("(opt<int>,vec<int>)"),
    make_sig<std::variant<bool, int>>("(var<bool,int>)"),
    make_wsig<std::variant<std::pair<bool, bool>, int>>("(var<pair<bool,bool>,int>)"),
    make_sig<std::size_t, bool, std::optional<int>, std::variant<std::monostate, int>>("(std::size_t,bool,opt<int>,var<mono,int>)"),
    make_sig<std::variant<std::vector<std::pair<int, int>>, std::tuple<std::optional<int>, bool>>>("(var<vec<pair<int,int>>,tup<opt<int>,bool>>)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
