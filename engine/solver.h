#pragma once
#include "expr.h"
#include <memory>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, model_hits = 0, trivial = 0;
    double time = 0, max_time = 0;
};
extern SolverStats g_ss;
extern u32 g_query_timeout_ms;
extern std::string g_unknown_reason;

typedef std::shared_ptr<const Model> ModelP;

// Is (pc and c) satisfiable?  base satisfies pc.  On Sat, out satisfies pc and c.
Res solveWith(const std::vector<Expr*>& pc, Expr* c, const ModelP& base, ModelP& out);
