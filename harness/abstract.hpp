// Abstract matcher types used as template arguments of the real node templates.
// A matcher is only declared: the verifier knows it by its contract, never by a body.
#ifndef VERIF_ABSTRACT_HPP
#define VERIF_ABSTRACT_HPP
#include "e_regex.hpp"
#include "nodes.hpp"
#include "nodes/repeated.hpp"

namespace vf
{
    using e_regex::admitted_set;

    // smin/smax: match size bounds the contract of the matcher guarantees
    template<char id, unsigned smin, unsigned smax, unsigned ngroups = 0>
    struct M
    {
            static constexpr auto expression
                = e_regex::pack_string<id>::string;
            static constexpr auto meta
                = e_regex::meta<admitted_set<char, id>> {
                    .policy_            = e_regex::policy::NONE,
                    .minimum_match_size = smin,
                    .maximum_match_size = smax};
            static constexpr unsigned groups           = ngroups;
            static constexpr int      next_group_index = 0;

            template<typename... injected>
            using optimize = M;

            template<typename... injected, typename R>
            static constexpr R& match(R& r);
    };

    inline constexpr unsigned any = 1000000007u; // "maximum size: anything"
    template<unsigned g>
    using R = e_regex::match_result_data<g, char>;
} // namespace vf
#endif
