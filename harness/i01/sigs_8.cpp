#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<int, int>("(int,int)"),
    make_wsig<std::optional<int>>("(opt<int>)"),
    make_sig<std::optional<std::tuple<int, std::string>>>("(opt<tup<int,std::string>>)"),
    make_sig<std::optional<std::pair<int, std::optional<int>>>>("(opt<pair<int,opt<int>>>)"),
    make_sig<std::vector<std::tuple<int, std::string, int>>>("(vec<tup<int,std::string,int>>)"),
    make_sig<std::vector<std::pair<int, std::vector<int>>>>("(vec<pair<int,vec<int>>>)"),
    make_wsig<std::vector<int>, std::vector<int>>("(vec<int>,vec<int>)"),
    make_sig<std::variant<std::monostate, std::monostate, std::monostate>>("(var<mono,mono,mono>)"),
    make_sig<std::variant<std::variant<int, int>, int>>("(var<var<int,int>,int>)"),
    make_sig<std::variant<std::monostate, std::monostate>, int>("(var<mono,mono>,int)"),
    make_sig<std::vector<std::variant<std::optional<int>, std::string>>>("(vec<var<opt<int>,std::string>>)"),
    make_wsig<std::vector<std::optional<std::pair<int, int>>>>("(vec<opt<pair<int,int>>>)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
