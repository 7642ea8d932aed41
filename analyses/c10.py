"""C10: unit inference for parameters and parametric directions."""
from unitcheck import run_units
def run(P, ctx):
    run_units(P, ctx, "C10")
    ctx.rule = ("unit inference over every function body and selector value: sums, comparisons, assignments, calls and returns equate units, products add them; the linear system is solved "
                "together with the function's recorded unit specification (tables/units.json). Any further equation between units of parameters, members and results that is not "
                "satisfied by rescaling the knots and parameters of one parametric direction; index dimensions keep the directions apart is a violation at the line that needs it")
    ctx.assumptions = ["comparison tolerances and very small or very large literals fit every unit", "branches entered only when a quantity is (almost) zero are degenerate and not related to the regular results",
                       "calls use the recorded specification of the callee; solvers and basis functions use stated ones"]
    ctx.floor("modes", ctx.cov["functions_and_modes"], 400)
    ctx.floor("equations", ctx.cov["equations_solved"], 20000)
