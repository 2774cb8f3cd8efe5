#include "mon.hh"
#include <gcs/innards/propagators.hh>
#include <gcs/innards/state.hh>
#include <generator>
#include <map>

using namespace gcs;
namespace eng
{
    auto Guess::at(ll x) const -> bool
    {
        switch (op) {
        case VariableConditionOperator::Equal: return x == val;
        case VariableConditionOperator::NotEqual: return x != val;
        case VariableConditionOperator::GreaterEqual: return x >= val;
        case VariableConditionOperator::Less: return x < val;
        case VariableConditionOperator::InRange: return x >= val && x <= upper;
        case VariableConditionOperator::NotInRange: return x < val || x > upper;
        }
        return false;
    }
    auto Guess::str() const -> string
    {
        static const char * n[] = {"==", "!=", ">=", "<", " in ", " notin "};
        auto s = "x" + std::to_string(v) + n[static_cast<int>(op)] + std::to_string(val);
        if (op == VariableConditionOperator::InRange || op == VariableConditionOperator::NotInRange)
            s += ".." + std::to_string(upper);
        return s;
    }

    auto RunCfg::str() const -> string
    {
        return (heur ? heur->str() : string("default-branch")) + (luby ? " luby" + std::to_string(*luby) : "") +
            (objective ? string(maximise ? " max " : " min ") + objective->str() : "") + (order ? " order " + vh::join(*order) : "") + (named ? " named" : "");
    }

    auto random_cfg(Rng & r, bool restarts) -> RunCfg
    {
        RunCfg c;
        if (! r.chance(1, 8))
            c.heur = random_heur(r);
        if (restarts)
            c.luby = static_cast<unsigned long long>(r.pick(vector<ll>{1, 1, 2, 3, 5, 10}));
        c.named = r.chance(1, 4);
        return c;
    }

    namespace
    {
        struct Walker
        {
            const Ids * ids;
            BranchCallback inner;
            RunRes * res;
            const RunCfg * cfg;
            std::atomic<bool> * abort;
            vector<Guess> path;
            bool visited = false;
            std::map<unsigned long long, int> index;

            auto guess_of(const IntegerVariableCondition & c) -> Guess
            {
                auto find = [&](const SimpleIntegerVariableID & s) {
                    auto it = index.find(s.index);
                    return it == index.end() ? -1 : it->second;
                };
                auto val = c.value.raw_value, upper = c.upper_value.raw_value;
                if (cfg->monitor && cfg->monitor->wants_views() && cfg->heur) {
                    for (size_t i = 0; i < ids->size(); ++i)
                        if (cfg->heur->view(static_cast<int>(i)).id(*ids) == c.var)
                            return Guess{static_cast<int>(i), c.op, val, upper};
                    return Guess{-1, c.op, val, upper};
                }
                if (auto s = std::get_if<SimpleIntegerVariableID>(&c.var))
                    return Guess{find(*s), c.op, val, upper};
                if (auto s = std::get_if<ViewOfIntegerVariableID>(&c.var)) {
                    Guess g{find(s->actual_variable), c.op, val, upper};
                    auto a = s->then_add.raw_value;
                    using O = VariableConditionOperator;
                    if (! s->negate_first) {
                        g.val -= a;
                        g.upper -= a;
                    }
                    else if (c.op == O::Less)
                        g.op = O::GreaterEqual, g.val = a - val + 1;
                    else if (c.op == O::GreaterEqual)
                        g.op = O::Less, g.val = a - val + 1;
                    else if (c.op == O::InRange || c.op == O::NotInRange)
                        g.val = a - upper, g.upper = a - val;
                    else
                        g.val = a - val;
                    return g;
                }
                return Guess{-1, c.op, val, upper};
            }

            auto doms(const CurrentState & s) -> vector<vector<ll>>
            {
                vector<vector<ll>> d(ids->size());
                for (size_t i = 0; i < ids->size(); ++i) {
                    auto op = cfg->heur && cfg->monitor->wants_views() ? cfg->heur->view(static_cast<int>(i)) : Op{static_cast<int>(i), false, 0};
                    auto set = s.copy_of_values(op.id(*ids));
                    for (const auto & iv : set.each_interval())
                        for (auto x = iv.first; x <= iv.second; ++x)
                            d[i].push_back(x.raw_value);
                }
                return d;
            }

            auto at_node(const CurrentState & s, const innards::Propagators & p) -> std::generator<IntegerVariableCondition>
            {
                visited = true;
                ++res->nodes;
                res->max_path = std::max(res->max_path, static_cast<ll>(path.size()));
                if (res->nodes > cfg->max_nodes) {
                    res->node_limit = true;
                    abort->store(true);
                }
                vector<vector<ll>> d;
                if (cfg->monitor) {
                    d = doms(s);
                    cfg->monitor->node(path, d);
                }
                vector<Guess> children;
                for (const auto & c : inner(s, p)) {
                    auto g = guess_of(c);
                    struct Pop
                    {
                        vector<Guess> & p;
                        ~Pop() { p.pop_back(); }
                    } pop{path};
                    path.push_back(g);
                    children.push_back(g);
                    visited = false;
                    ++res->yields;
                    co_yield c;
                    if (! visited) {
                        ++res->fails;
                        if (cfg->monitor)
                            cfg->monitor->failed(path);
                    }
                }
                // a leaf's solution is reported after this returns
                if (cfg->monitor)
                    cfg->monitor->closed(path, d, children);
                visited = true;
            }
        };
    }

    auto run_inst(const Inst & in, const RunCfg & cfg) -> RunRes
    {
        RunRes res;
        Problem p;
        Inst ordered;
        const Inst * use = &in;
        if (cfg.order) {
            ordered = in;
            ordered.cons.clear();
            for (int i : *cfg.order)
                ordered.cons.push_back(in.cons[i]);
            use = &ordered;
        }
        auto ids = build(*use, p, cfg.named);
        if (cfg.objective) {
            if (cfg.maximise)
                p.maximise(cfg.objective->id(ids));
            else
                p.minimise(cfg.objective->id(ids));
        }
        if (cfg.extra)
            cfg.extra(p, ids);
        std::atomic<bool> own{false};
        auto abort = cfg.abort ? cfg.abort : &own;
        Walker w{.ids = &ids, .inner = {}, .res = &res, .cfg = &cfg, .abort = abort};
        for (size_t i = 0; i < ids.size(); ++i)
            w.index.emplace(std::get<SimpleIntegerVariableID>(ids[i]).index, static_cast<int>(i));
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState & s) -> bool {
            res.sols.push_back(values_at(s, ids));
            if (cfg.monitor)
                cfg.monitor->solution(res.sols.back());
            return cfg.stop_after < 0 || static_cast<int>(res.sols.size()) < cfg.stop_after;
        };
        cb.trace = [&](const CurrentState &) -> bool {
            ++res.traces;
            return true;
        };
        cb.completed = [&] { res.completed = true; };
        cb.stats_report = [&](const StatsNote & n) { res.notes.push_back(render(n)); };
        if (cfg.luby)
            cb.restarts = RestartSchedule::luby(*cfg.luby);
        if (! cfg.branch && ! cfg.heur && ! cfg.monitor) {
            // the solver's own default
            res.stats = solve_with(p, cb, cfg.proof, abort);
            return res;
        }
        BranchHeuristic h = cfg.branch ? cfg.branch(ids)
            : cfg.heur ? make_branch(*cfg.heur, ids)
                       : branch_with(variable_order::dom_then_deg(p), value_order::smallest_first());
        cb.branch = [&, h](const Problem & pr, innards::State & st, innards::Propagators & pp) -> BranchCallback {
            w.inner = h(pr, st, pp);
            return [&](const CurrentState & s, const innards::Propagators & q) { return w.at_node(s, q); };
        };
        res.stats = solve_with(p, cb, cfg.proof, abort);
        return res;
    }
}
