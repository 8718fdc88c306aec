#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<bool>("(bool)"),
    make_sig<std::size_t, std::string>("(std::size_t,std::string)"),
    make_wsig<std::optional<std::tuple<>>>("(opt<std::tuple<>>)"),
    make_sig<std::optional<std::variant<int, std::string>>>("(opt<var<int,std::string>>)"),
    make_sig<std::vector<std::tuple<>>>("(vec<tup<>>)"),
    make_sig<std::vector<std::pair<std::optional<int>, int>>>("(vec<pair<opt<int>,int>>)"),
    make_sig<std::vector<std::variant<std::pair<int, int>, std::monostate, bool>>>("(vec<var<pair<int,int>,mono,bool>>)"),
    make_wsig<std::vector<int>, std::optional<int>>("(vec<int>,opt<int>)"),
    make_sig<std::variant<std::vector<int>, int>>("(var<vec<int>,int>)"),
    make_sig<std::variant<std::monostate, std::optional<std::pair<int, int>>, std::vector<int>>>("(var<mono,opt<pair<int,int>>,vec<int>>)"),
    make_sig<int, bool, std::vector<std::string>>("(int,bool,vec<std::string>)"),
    make_sig<int, int, int>("(arr3)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
