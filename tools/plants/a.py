C='libclingcon/src/constraints.cc'; S='libclingcon/src/solver.cc'; H='libclingcon/clingcon/'
BUGS=[
dict(id='sum-reason-refine', prop='P01', file=C,
 old="""                auto delta = floordiv<sum_t>(slack + 1, co);
                auto value = std::min<sum_t>(current + delta, vs.max_bound());
                if (value > current) {
                    // refine""",
 new="""                auto delta = floordiv<sum_t>(slack, co);
                auto value = std::min<sum_t>(current + delta, vs.max_bound());
                if (value > current) {
                    // refine""",
 cases=[('min=-3 max=6 0 quiet','{a;b;c}. &sum{-2*x-3*y-z}<=7 :- a. &sum{x-2*y+z}<= -1. &sum{x}<=4 :- b. &sum{x}>=2 :- c. &sum{y}>=3 :- b,c. &sum{y;x}>=4. &sum{-x-y-z}<= -6.'),
        ('min=0 max=9 0 quiet','{a;b;c;d}. &sum{-2*x-2*y}<= -14 :- a. &sum{-x-y-z}<= -11 :- d. &sum{x}<=5 :- b. &sum{y}<=3 :- c. &sum{x}<=6. &sum{z}<=2.')],
 needs='refinement of a reason over a variable with negative coefficient where the slack is a multiple of the coefficient', breaks='the refined reason no longer implies the consequence, so answers are lost'),
dict(id='distinct-upper-lit', prop='P03', file=C,
 old="""                // add consequence
                lit = solver.update_literal(cc, vs, vs.upper_bound() - 1,
                                            is_fact && reason.empty()""",
 new="""                // add consequence
                lit = solver.update_literal(cc, vs, vs.upper_bound() - 1,
                                            is_fact || reason.empty()""",
 cases=[('min=0 max=2 0 quiet dist=0','{a}. &distinct{x;y;z} :- a. &sum{y}=2. &sum{z}<=1.')],
 needs='a distinct constraint whose literal is not a fact, propagated at the top level', breaks='the consequence is made a fact although it depends on the literal'),
dict(id='disjoint-changed', prop='P04', file=C,
 old="has_change = has_change || changed(*it);", new="has_change = has_change || (changed(*it) && upper(*it) > min);",
 cases=[('min=0 max=4 0 quiet','&disjoint{x@2;y@2}. {a}. &disjoint{x@1;y@2;z@1} :- a. &sum{z}<=3.'),('min=0 max=3 0 quiet','&disjoint{x@1;y@1;z@1}.')],
 needs='a change of a task that ends exactly where the group of overlapping tasks starts', breaks='the group is not propagated again'),
dict(id='nonlinear-reason', prop='P05', file=C,
 old="""            reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
            reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
            reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
            reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
            if""",
 new="""            if (lower_y < 0 || upper_x < 0) {
                reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
            }
            reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
            reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
            reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
            if""",
 cases=[('min=-2 max=2 0 quiet','{a}. &nsum{-1*x*y; z} <= -3 :- a.'),('min=-2 max=2 0 quiet','&nsum{-2*x*y} <= -3. '),('min=-2 max=2 0 quiet','&nsum{-2*x*y; z} <= -3. &nsum{x*z} <= 0.')],
 needs='negative coefficient of the product, nonnegative second factor', breaks='the reason of the conflict misses an upper bound'),
]
