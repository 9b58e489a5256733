// C15: the stance machine follows the gait timeline, whatever sequence of operations is applied to it.
#include "gait.h"
using namespace humoto::walking;
typedef StanceType ST;
typedef StanceSubType SS;
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

using gait::Ref; using gait::timeline;
static void same(mc::Ctx &c, const Stance &s, const Ref &r, const char *key)
{
    c.check(s.type_ == r.type, key, "stance type");
    c.check(s.subtype_ == r.subtype, key, "stance subtype");
    c.check(s.previous_nonds_stance_type_ == r.nonds, key, "previous single support");
    c.check(s.previous_nontds_stance_type_ == r.nontds, key, "previous stance except transitional ones");
}
static void full(mc::Ctx &c, const StanceFiniteStateMachine &f, const std::vector<Ref> &t, std::size_t at, std::size_t time, const char *key)
{
    same(c, f.current_stance_, t[at], key);
    c.check(f.current_stance_.duration_ms_ == t[at].duration, key, "duration");
    c.check(f.current_time_ms_ == time, key, "time since the beginning of the stance");
    c.check(f.ss_states_to_termination_ == t[at].left, key, "number of remaining single supports");
}
static StanceFSMParameters choosePar(mc::Ctx &c)
{
    StanceFSMParameters p;
    p.ss_duration_ms_ = c.range(1, 3, "ss duration");
    p.tds_duration_ms_ = c.range(0, 2, "tds duration");
    p.first_stance_duration_ms_ = c.range(1, 3, "first duration");
    p.last_stance_duration_ms_ = c.pick(std::vector<std::size_t>{2, 5}, "last duration");
    p.num_steps_ = c.pick(std::vector<std::size_t>{3, 0, 2}, "steps");
    static const ST::Type fs[] = {ST::DS, ST::LSS, ST::RSS};
    static const ST::Type ff[] = {ST::RSS, ST::LSS, ST::UNDEFINED};
    p.first_stance_ = c.pick(fs, "first stance");
    p.first_ss_type_ = c.pick(ff, "first single support");
    return p;
}
static void previews(mc::Ctx &c, const StanceFiniteStateMachine &f, const std::vector<Ref> &t, std::size_t at, std::size_t time, std::size_t d)
{
    std::vector<Stance> v = f.previewStances(d);
    std::size_t left = d, k = at, i = 0, tm = time;
    bool enough = true;
    while (left > 0)
    {
        std::size_t rest = t[k].duration - tm;
        if (t[k].terminal && left > rest) { enough = false; break; }
        c.check(i < v.size(), "preview-short", "the preview does not cover its duration");
        same(c, v[i], t[k], "preview");
        std::size_t use = std::min(left, rest);
        c.check(v[i].duration_ms_ == use, "preview-duration", "duration of a stance in the preview");
        c.check(v[i].total_duration_ms_ == t[k].duration, "preview-total-duration", "total duration of a stance in the preview");
        left -= use;
        ++i;
        if (left > 0) { ++k; tm = 0; }
    }
    if (enough && i > 0 && t[k].type == ST::TDS)
    {
        c.check(i < v.size(), "preview-after-tds", "a stance is always added after a transitional double support");
        same(c, v[i], t[k + 1], "preview-after-tds");
        c.check(v[i].duration_ms_ == 0, "preview-after-tds", "zero duration");
        ++i;
    }
    c.check(v.size() == i, "preview-long", "the preview is too long");
}
MC_SCENARIO(gait, 64, 5)
{
    StanceFSMParameters p = choosePar(c);
    int depth = c.thorough ? 6 : 3;
    std::vector<Ref> t = timeline(p, 60);
    StanceFiniteStateMachine f(p);
    if (c.flip("reused"))
    {
        StanceFSMParameters q; q.first_stance_duration_ms_ = 1;
        StanceFiniteStateMachine g(q);
        for (int i = 0; i < 3; ++i) g.shiftStance();
        f = g;
        f.setParameters(p);
    }
    std::size_t at = 0, time = 0;
    full(c, f, t, 0, 0, "initial");
    c.check(!f.is_tds_started_, "tds-started", "initially");
    for (int d = 0; d < depth; ++d)
    {
        uint32_t op = c.choose(d == 0 ? 12 : 6, "operation");
        if (op == 0)
        {
            f.shiftStance();
            c.step("shiftStance");
            ++at; time = 0;
            c.check(f.is_tds_started_ == (t[at].type == ST::TDS), "tds-started", "set exactly when a transitional double support starts");
        }
        else
        {
            std::size_t s = op;       // 1..5, up to 11 for the first operation
            f.shiftTime(s);
            c.step("shiftTime");
            std::size_t left = s;
            while (left > 0)
            {
                if (time + left < t[at].duration) { time += left; left = 0; }
                else { left -= t[at].duration - time; ++at; time = 0; }
            }
            c.check(f.is_tds_started_ == (time == 0 && t[at].type == ST::TDS), "tds-started", "set exactly when a transitional double support starts");
        }
        full(c, f, t, at, time, "stance");
        same(c, f.getNextStance(), t[at + 1], "next-stance");
        c.check(f.getNextStance().duration_ms_ == t[at + 1].duration, "next-stance", "duration");
        full(c, f, t, at, time, "next-stance-const");
        std::stringstream st; st << at << "," << time << "," << f.current_stance_.type_ << "," << f.ss_states_to_termination_ << "," << p.ss_duration_ms_ << p.tds_duration_ms_ << p.first_stance_duration_ms_ << p.last_stance_duration_ms_ << p.num_steps_ << p.first_stance_ << p.first_ss_type_;
        c.state(st.str());
    }
    for (std::size_t d = 0; d <= 12; ++d)
    {
        previews(c, f, t, at, time, d);
        full(c, f, t, at, time, "preview-const");
        c.step("previewStances");
    }
}
// shifting the time in any portions is the same as shifting it at once; whole gaits are walked to the end
MC_SCENARIO(portions, 16, 4)
{
    StanceFSMParameters p = choosePar(c);
    std::vector<Ref> t = timeline(p, 60);
    std::size_t portion = c.range(1, 7, "portion");
    StanceFiniteStateMachine f(p);
    std::size_t at = 0, time = 0, total = 0;
    while (total + portion <= 40)
    {
        f.shiftTime(portion); total += portion;
        std::size_t left = portion;
        while (left > 0)
        {
            if (time + left < t[at].duration) { time += left; left = 0; }
            else { left -= t[at].duration - time; ++at; time = 0; }
        }
        full(c, f, t, at, time, "portions");
        StanceFiniteStateMachine g(p);
        g.shiftTime(total);
        full(c, g, t, at, time, "at-once");
        c.step("shiftTime");
        previews(c, f, t, at, time, 7);
    }
}
MC_SCENARIO(parameters, 1, 1)
{
    StanceFSMParameters p;
    p.ss_duration_ms_ = 11; p.tds_duration_ms_ = 12; p.first_stance_duration_ms_ = 13; p.last_stance_duration_ms_ = 14;
    c.step("parameters");
    c.check(p.getDurationMs(ST::LSS) == 11 && p.getDurationMs(ST::RSS) == 11 && p.getDurationMs(ST::TDS) == 12 && p.getDurationMs(ST::DS) == 14, "durations");
    c.check(throws([&] { p.getDurationMs(ST::UNDEFINED); }), "durations", "undefined stance");
    c.check(determineSupportFoot(ST::LSS) == humoto::LeftOrRight::LEFT && determineSupportFoot(ST::RSS) == humoto::LeftOrRight::RIGHT, "support-foot");
    c.check(throws([&] { determineSupportFoot(ST::DS); }) && throws([&] { determineSupportFoot(ST::TDS); }), "support-foot", "double supports");
    StanceFiniteStateMachine f;
    StanceFSMParameters bad;
    switch (c.choose(4, "bad parameters"))
    {
        case 0: bad.num_steps_ = 1; break;
        case 1: bad.first_stance_ = ST::TDS; break;
        case 2: bad.first_stance_ = ST::UNDEFINED; break;
        case 3: bad.first_ss_type_ = ST::TDS; break;
    }
    c.check(throws([&] { f.setParameters(bad); }) && throws([&] { StanceFiniteStateMachine g(bad); }), "bad-parameters", "must be rejected");
    p.setDefaults();
    StanceFSMParameters q;
    c.check(p.ss_duration_ms_ == q.ss_duration_ms_ && p.tds_duration_ms_ == q.tds_duration_ms_ && p.first_stance_duration_ms_ == q.first_stance_duration_ms_ && p.last_stance_duration_ms_ == q.last_stance_duration_ms_ && p.num_steps_ == q.num_steps_, "defaults");
}
