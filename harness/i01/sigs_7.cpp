#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<std::string_view>("(std::string_view)"),
    make_sig<int, std::size_t>("(int,std::size_t)"),
    make_sig<std::optional<std::pair<int, int>>>("(opt<pair<int,int>>)"),
    make_wsig<std::optional<std::pair<std::optional<int>, int>>>("(opt<pair<opt<int>,int>>)"),
    make_sig<std::vector<std::pair<int, int>>>("(vec<pair<int,int>>)"),
    make_sig<std::vector<std::vector<int>>>("(vec<vec<int>>)"),
    make_sig<std::vector<int>, int>("(vec<int>,int)"),
    make_sig<std::variant<std::monostate, int>>("(var<mono,int>)"),
    make_wsig<std::variant<std::optional<int>, std::optional<int>>>("(var<opt<int>,opt<int>>)"),
    make_sig<std::variant<std::monostate, int>, std::variant<std::monostate, int>>("(var<mono,int>,var<mono,int>)"),
    make_sig<std::variant<std::tuple<>, std::monostate, std::string>, std::size_t>("(var<tup<>,mono,std::string>,std::size_t)"),
    make_sig<std::optional<double>, bool>("(opt<double>,bool)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
