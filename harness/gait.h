// Timeline of a gait, built from its description independently of the stance machine.
#pragma once
#include "hier.h"
#include "humoto/walking.h"
namespace gait
{
    typedef humoto::walking::StanceType ST;
    typedef humoto::walking::StanceSubType SS;
    struct Ref     // one stance of the timeline
    {
        int type, subtype, nonds, nontds;
        std::size_t duration;
        std::size_t left;       // single supports left
        bool terminal;          // final double support
    };
    inline std::vector<Ref> timeline(const humoto::walking::StanceFSMParameters &p, std::size_t total)
    {
        std::vector<Ref> t;
        std::size_t steps = p.num_steps_;
        int last_ss = ST::UNDEFINED;
        if (p.first_stance_ == ST::DS)
        {
            if (p.first_ss_type_ == ST::LSS) last_ss = ST::RSS;
            if (p.first_ss_type_ == ST::RSS) last_ss = ST::LSS;
            if (p.first_ss_type_ == ST::UNDEFINED) steps = 0;           // no step can be made
        }
        else last_ss = p.first_stance_;
        Ref r = {p.first_stance_, SS::FIRST, last_ss, ST::UNDEFINED, p.first_stance_duration_ms_, steps, false};
        r.terminal = (p.first_stance_ == ST::DS && steps == 0);
        t.push_back(r);
        int nontds = p.first_stance_;
        bool moving = !(p.first_stance_ == ST::DS && steps == 0);
        while (moving)
        {
            Ref tds = {ST::TDS, SS::INTERMEDIATE, last_ss, nontds, p.tds_duration_ms_, steps, false};
            t.push_back(tds);
            if (steps == 0)
            {
                Ref ds = {ST::DS, SS::LAST, last_ss, nontds, p.last_stance_duration_ms_, 0, true};
                t.push_back(ds);
                break;
            }
            int prev = last_ss;
            last_ss = (last_ss == ST::LSS) ? ST::RSS : ST::LSS;
            --steps;
            // during a single support the previous stances are still those before it
            Ref ss = {last_ss, SS::INTERMEDIATE, prev, nontds, p.ss_duration_ms_, steps, false};
            t.push_back(ss);
            nontds = last_ss;
        }
        std::size_t have = 0;
        for (auto &x : t) have += x.duration;
        while (have <= total)
        {
            Ref ds = {ST::DS, SS::INTERMEDIATE, t.back().nonds, ST::DS, p.last_stance_duration_ms_, 0, true};
            t.push_back(ds);
            have += ds.duration;
        }
        Ref extra = {ST::DS, SS::INTERMEDIATE, t.back().nonds, ST::DS, p.last_stance_duration_ms_, 0, true};
        t.push_back(extra); t.push_back(extra);
        return t;
    }
    inline void advance(const std::vector<Ref> &t, std::size_t &at, std::size_t &time, std::size_t left)
    {
        while (left > 0)
        {
            if (time + left < t[at].duration) { time += left; left = 0; }
            else { left -= t[at].duration - time; ++at; time = 0; }
        }
    }
}
