// Only for C08, which compares a regex with the tree it was before any
// optimization. This is the only file that needs names that are not
// documented: when they are gone, C08 compares with the reference model
#pragma once

namespace h
{
template<e_regex::static_string P> struct unoptimized
{
    using tree = typename e_regex::tree_builder<e_regex::build_pack_string_t<P>>::tree;
    static void run(sv q, Obs& o) { history<e_regex::regex<P>::groups>(e_regex::match_result<tree> {q}, o); }
};
} // namespace h
