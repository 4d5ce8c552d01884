C='libclingcon/src/constraints.cc'; S='libclingcon/src/solver.cc'; P='libclingcon/src/propagator.cc'; G='libclingcon/src/parsing.cc'; H='libclingcon/clingcon/'
BUGS=[
dict(id='weight-neg', prop='P06', file=C,
 old="for (sum_t i = std::max<sum_t>(value - 1, vs.lower_bound()), e", new="for (sum_t i = std::max<sum_t>(value, vs.lower_bound()), e",
 cases=[('min=0 max=4 wcr=100 total=0 0 quiet','{a}. &sum{x-2*y}<= -3 :- a. :- &sum{x-2*y}<= -3, not a.')],
 needs='translation to weight constraints with a negative coefficient and a slack smaller than the domain', breaks='literals are missing in the weight constraint'),
dict(id='min-adjust', prop='P18', file=P,
 old="auto bound = minimize_bound + minimize_->adjust();", new="auto bound = minimize_bound - minimize_->adjust();",
 cases=[('min=0 max=8 0 last','&minimize{x+y+3}. &sum{x+y}>=4.'),('min=0 max=8 0 last','&minimize{x+y-3}. &sum{x+y}>=4. &sum{x}=y.')],
 needs='an objective with a constant', breaks='the bound of the objective is off by twice the constant'),
dict(id='step-links', prop='P17', file=S,
 old="""            vs.unset_literal(olit.value());
            update_litmap_(vs, 0, olit.value());
            olit.unset();
        }
        ++offset;""", new="""            vs.unset_literal(olit.value());
            olit.unset();
        }
        ++offset;""",
 cases=[('min=0 max=8 0 quiet','{a}. &sum{x+y}<=7 :- a. &sum{x-y}>=2.\n%%shot\n{b}. &sum{x}<=6 :- b. &sum{y}>=1.\n%%shot\n{c}. &sum{x}>=4 :- c. &sum{x+y}<=9.')],
 needs='a second solving step in which order literals of the first one were removed', breaks='order literals keep links to removed neighbours'),
dict(id='simple-shared', prop='P14', file=S,
 old="litmap_at_(lit); !olit.invalid()) {\n                auto old", new="litmap_at_(lit); olit.valid(lit)) {\n                auto old",
 cases=[('min=0 max=8 0','{a}. &sum{x}<=3 :- a. &sum{y}>=2 :- a. a :- &sum{x}<=3. a :- &sum{y}>=2. :- a, &sum{x}>=4.')],
 needs='a literal representing two constraints of opposite direction', breaks='the second constraint replaces the first one'),
dict(id='chain-level', prop='P16', file=S,
 old="if (config_.propagate_chain && ass.decision_level() > 0) {\n            reason_lit = lit;", new="if (config_.propagate_chain) {\n            reason_lit = lit;",
 cases=[('min=0 max=8 0 quiet','{a}. &sum{x}<=3 :- a. &sum{y}>=2 :- a. &sum{x}>=4 :- not a. &sum{x;y}<=5.')],
 needs='top level', breaks='facts'),
dict(id='undo-watch', prop='P15', file=S,
 old="            auto [var, val, cs] = *it;\n            solver.var_watches_[var].emplace_back(val, cs);", new="            auto [var, val, cs] = *it;\n            if (!cs->marked_todo()) {\n                solver.var_watches_[var].emplace_back(val, cs);\n            }",
 cases=[('min=0 max=8 0 quiet','{a;b}. &sum{x+y}<=7 :- a. &sum{x-y}>=2 :- b. &sum{x+2*y+z}<=9.')],
 needs='backtracking with pending constraints', breaks='a watch is lost'),
dict(id='undo-diff', prop='P15', file=S,
 old="            solver.udiff_[var] = 0;\n        }\n        solver.undo_upper_", new="            solver.udiff_[var] -= diff;\n        }\n        solver.undo_upper_",
 cases=[('min=0 max=8 0 quiet','{a;b}. &sum{x+y}<=7 :- a. &sum{x-y}>=2 :- b. &sum{x+2*y+z}<=9.')],
 needs='backtracking', breaks='pending change of a bound survives'),
dict(id='decide-min', prop='P22', file=S,
 old="auto lit = vs.lit_ge(vs.lower_bound());", new="auto lit = vs.lit_ge(vs.min_bound());",
 cases=[('min=0 max=8 0 shift=1','{a;b}. &sum{x+y}<=7 :- a. &sum{x-y}>=2 :- b. &sum{x+2*y+z}<=9.')],
 needs='max-chain heuristic', breaks='proposes literals below the lower bound'),
dict(id='nonlinear-zero', prop='P07', file=P,
 old="            return add_constraint(lit, vars, rhs, strict);", new="            return add_constraint(lit, vars, rhs, strict && co_c == 0);",
 cases=[('min=0 max=4 0','a :- &nsum{z} <= 2.'),('min=0 max=4 0','a :- &nsum{x*y-y*x+z} <= 2.')],
 needs='a nonlinear atom in the body whose product vanishes', breaks='only one direction of the equivalence is added'),
dict(id='distinct-same', prop='P03', file=P,
 old="                    if (rhs == 0) {\n                        return cc_.add_clause({-lit});", new="                    if (rhs == 0 && it->second == 0) {\n                        return cc_.add_clause({-lit});",
 cases=[('min=0 max=3 0','{a}. &distinct{x+1;x+1} :- a.'),('min=0 max=3 0','{a}. &distinct{x+1;1+x} :- a.')],
 needs='two equal terms with a nonzero constant', breaks='the violated constraint is accepted'),
dict(id='negone-range', prop='P07', file=G,
 old="        op = \"<=\";\n        rhs = safe_sub(rhs, 1);", new="        op = \"<=\";\n        rhs = rhs > 0 ? safe_sub(rhs, 1) : rhs == 0 && strict ? rhs : safe_sub(rhs, 1);",
 cases=[('min=-2 max=2 0','a :- &sum{x+y} < 0.'),('min=-2 max=2 0','a :- &sum{x} < 0.')],
 needs='strict less than zero in the body', breaks='off by one'),
dict(id='distinct-fixed', prop='P06', file=C,
 old="                    auto adjust = (value - fixed) / co;", new="                    auto adjust = (value - std::abs(fixed)) / co;",
 cases=[('min=0 max=4 dist=1000 0 quiet','&distinct{x-1;y;z-1}.')],
 needs='a negative constant in a translated distinct constraint', breaks='the wrong order literal'),
dict(id='nonlinear-upper', prop='P05', file=C,
 old="        if (lower == lhs_ul) {\n            return {upper_x, lower_x, lower_y, upper_y, lower, upper};", new="        if (lower == lhs_ul) {\n            return {upper_x, lower_x, lower_y, upper_y, lower, std::max(lhs_ll, lhs_uu)};",
 cases=[('min=-2 max=2 0 quiet','&nsum{x*y} <= 1.'),('min=-3 max=2 0 quiet','&nsum{x*y} <= 1. &sum{y}>= -1.'),('min=-2 max=2 0 quiet','&nsum{x*y} <= 1. &sum{x}>= -1. '),('min=-2 max=2 0 quiet','&nsum{-2*x*y;z} <= 3. &sum{x}>= -1. &sum{y}<= 1.')],
 needs='bounds of different sign', breaks='maximum of the product underestimated; constraint becomes inactive'),
]
