#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_wsig<double>("(double)"),
    make_sig<std::size_t, std::size_t>("(std::size_t,std::size_t)"),
    make_sig<std::optional<std::monostate>>("(opt<mono>)"),
    make_sig<std::optional<std::variant<std::monostate, int>>>("(opt<var<mono,int>>)"),
    make_sig<std::vector<std::size_t>>("(vec<std::size_t>)"),
    make_wsig<std::vector<std::pair<int, std::optional<int>>>>("(vec<pair<int,opt<int>>>)"),
    make_sig<int, std::vector<int>>("(int,vec<int>)"),
    make_sig<std::variant<int, std::string>>("(var<int,std::string>)"),
    make_sig<std::variant<std::vector<int>, std::vector<std::string>>>("(var<vec<int>,vec<std::string>>)"),
    make_sig<std::variant<int, int>, std::variant<int, int>>("(var<int,int>,var<int,int>)"),
    make_wsig<bool, std::optional<int>, std::vector<std::pair<std::string, int>>>("(bool,opt<int>,vec<pair<std::string,int>>)"),
    make_sig<std::optional<std::array<int, 3>>>("(opt<std::array<int,3>>)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
