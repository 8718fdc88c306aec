#include "cli.hpp"

namespace m {
namespace {

const Sig sigs[] = {
    make_sig<int>("(int)"),
    make_sig<bool, bool>("(bool,bool)"),
    make_sig<std::optional<int>, int>("(opt<int>,int)"),
    make_wsig<std::optional<std::optional<int>>>("(opt<opt<int>>)"),
    make_sig<std::vector<std::string>>("(vec<std::string>)"),
    make_sig<std::vector<std::pair<bool, int>>>("(vec<pair<bool,int>>)"),
    make_sig<std::vector<std::variant<int, std::string>>>("(vec<var<int,std::string>>)"),
    make_sig<bool, std::vector<std::string>>("(bool,vec<std::string>)"),
    make_wsig<std::variant<int, std::pair<int, int>>>("(var<int,pair<int,int>>)"),
    make_sig<std::variant<std::size_t, int>>("(var<std::size_t,int>)"),
    make_sig<std::variant<int, std::string>, std::optional<int>>("(var<int,std::string>,opt<int>)"),
    make_sig<std::optional<std::vector<std::pair<int, std::optional<std::string>>>>, int>("(opt<vec<pair<int,opt<std::string>>>>,int)"),
};
[[maybe_unused]] const int registered = reg_sigs(sigs);

} // namespace
} // namespace m
