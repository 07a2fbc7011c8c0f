"""Gadgets that are made of a fixed number of gates."""
from core import check
from circuit import *

R = "jf_relation"

# (function, type, equations, returned values); $n are unknowns the gadget creates
GATES = [
    ("add_gate", None, ["a + b - c"], []),
    ("add", "PlonkCircuit", [], ["a + b"]),
    ("sub_gate", None, ["a - b - c"], []),
    ("sub", "PlonkCircuit", [], ["a - b"]),
    ("mul_gate", None, ["a*b - c"], []),
    ("mul", "PlonkCircuit", [], ["a*b"]),
    ("enforce_bool", "PlonkCircuit", ["a*a - a"], []),
    ("enforce_equal", "PlonkCircuit", ["a - b"], []),
    ("enforce_constant", "PlonkCircuit", ["var - constant"], []),
    ("create_constant_variable", "PlonkCircuit", [], ["val"]),
    ("create_boolean_variable", "Circuit", ["$1*$1 - $1"], ["$1"]),
    ("quad_poly_gate", None, ["q_lc[0]*wires[0] + q_lc[1]*wires[1] + q_lc[2]*wires[2] + q_lc[3]*wires[3] + q_mul[0]*wires[0]*wires[1] + q_mul[1]*wires[2]*wires[3] + q_c - q_o*wires[4]"], []),
    ("gen_quad_poly", None, [], ["q_lc[0]*wires[0] + q_lc[1]*wires[1] + q_lc[2]*wires[2] + q_lc[3]*wires[3] + q_mul[0]*wires[0]*wires[1] + q_mul[1]*wires[2]*wires[3] + q_c"]),
    ("lc_gate", None, ["coeffs[0]*wires[0] + coeffs[1]*wires[1] + coeffs[2]*wires[2] + coeffs[3]*wires[3] - wires[4]"], []),
    ("lc", None, [], ["coeffs[0]*wires_in[0] + coeffs[1]*wires_in[1] + coeffs[2]*wires_in[2] + coeffs[3]*wires_in[3]"]),
    ("mul_add_gate", None, ["q_muls[0]*wires[0]*wires[1] + q_muls[1]*wires[2]*wires[3] - wires[4]"], []),
    ("mul_add", None, [], ["q_muls[0]*wires_in[0]*wires_in[1] + q_muls[1]*wires_in[2]*wires_in[3]"]),
    ("add_constant_gate", None, ["x + c - y"], []),
    ("add_constant", None, [], ["input_var + elem"]),
    ("mul_constant_gate", None, ["x*c - y"], []),
    ("mul_constant", None, [], ["input_var*elem"]),
    ("power_11_gate", None, ["x^11 - x_to_11"], []),
    ("power_11_gen", None, [], ["x^11"]),
    ("is_zero", "PlonkCircuit", ["(1 - $1*a)*a"], ["1 - $1*a"]),
    ("is_equal", "PlonkCircuit", ["(1 - $1*(a - b))*(a - b)"], ["1 - $1*(a - b)"]),
    ("non_zero_gate", None, ["$1*var - 1"], []),
    ("logic_and", None, [], ["a*b"]),
    ("logic_or_gate", None, ["a + b - a*b - 1"], []),
    ("logic_or", None, [], ["a + b - a*b"]),
    ("enforce_true", None, ["a - 1"], []),
    ("enforce_false", None, ["a"], []),
    ("conditional_select", "PlonkCircuit", [], ["(1 - b)*x_0 + b*x_1"]),
    ("enforce_on_curve", "PlonkCircuit", ["COEFF_A*point_var.0^2 + point_var.1^2 - 1 - COEFF_D*point_var.0^2*point_var.1^2"], []),
    ("ecc_add_gate", None, ["point_c.0*(1 + COEFF_D*point_a.0*point_b.0*point_a.1*point_b.1) - point_a.0*point_b.1 - point_a.1*point_b.0",
                            "point_c.1*(1 - COEFF_D*point_a.0*point_b.0*point_a.1*point_b.1) - point_a.1*point_b.1 + COEFF_A*point_a.0*point_b.0"], []),
    ("ecc_add", "PlonkCircuit", ["$1*(1 + COEFF_D*point_a.0*point_b.0*point_a.1*point_b.1) - point_a.0*point_b.1 - point_a.1*point_b.0",
                                 "$2*(1 - COEFF_D*point_a.0*point_b.0*point_a.1*point_b.1) - point_a.1*point_b.1 + COEFF_A*point_a.0*point_b.0"], ["$1", "$2"]),
    ("inverse_point", None, [], ["0 - point_var.0", "point_var.1"]),
    ("enforce_point_equal", None, ["point0.0 - point1.0", "point0.1 - point1.1"], []),
    ("is_point_equal", None, ["(1 - $1*(point0.0 - point1.0))*(point0.0 - point1.0)", "(1 - $2*(point0.1 - point1.1))*(point0.1 - point1.1)"],
     ["(1 - $1*(point0.0 - point1.0))*(1 - $2*(point0.1 - point1.1))"]),
    ("quaternary_point_select", None, [],
     ["b0*(1 - b1)*point1.0 + (1 - b0)*b1*point2.0 + b0*b1*point3.0", "(1 - b0)*(1 - b1) + b0*(1 - b1)*point1.1 + (1 - b0)*b1*point2.1 + b0*b1*point3.1"]),
    ("binary_point_vars_select", None, [], ["(1 - b)*point0.0 + b*point1.0", "(1 - b)*point0.1 + b*point1.1"]),
    ("neutral_point_gate", None, ["(1 - $1*point_var.0)*point_var.0", "(1 - $2*(point_var.1 - 1))*(point_var.1 - 1)",
                                  "(1 - $1*point_var.0)*(1 - $2*(point_var.1 - 1)) - expected_neutral"], []),
    ("is_neutral_point", None, ["(1 - $1*point_var.0)*point_var.0", "(1 - $2*(point_var.1 - 1))*(point_var.1 - 1)"],
     ["(1 - $1*point_var.0)*(1 - $2*(point_var.1 - 1))"]),
]

# gadgets whose assigned values are field expressions of the inputs
ASSIGN = ("add", "sub", "mul", "create_constant_variable", "create_boolean_variable", "gen_quad_poly", "lc", "mul_add", "add_constant", "mul_constant", "power_11_gate",
          "power_11_gen", "is_zero", "is_equal", "non_zero_gate", "logic_and", "logic_or", "conditional_select", "inverse_point", "is_point_equal", "quaternary_point_select",
          "binary_point_vars_select", "ecc_add")


@check("C03", [R], """Gadgets constrain exactly what they document. For every gadget of a fixed number of gates the inserted gates are turned into the polynomials they force to zero:
selector values are read from the implementation of the gate's type, wires are named after the arguments they come from, created variables are unknowns. Unknowns that
an equation defines are eliminated; what is left and the returned variables must be the documented equations and values up to naming of the unknowns and constant factors.
A gate inserted only on some successful paths, or whose failure is ignored, does not count. The values assigned to created variables are substituted
into the equations (per branch, with the branch's facts and u·inv(u) = 1), which must vanish.""", floor=60)
def c03(rep, prog):
    for name, sh, eqs, outs in GATES:
        fn = rep.anchor(prog, R, name, sh)
        if fn is None:
            continue
        # the two branches of the neutral-point indicator each create a (constrained) boolean variable
        s = Sys(rep, prog, fn, opaque=("create_boolean_variable",) if name == "is_neutral_point" else ())
        constrains(rep, s, "gates", eqs, outs, "gates")
        if name in ASSIGN:
            s = Sys(rep, prog, fn)
            complete(rep, s, "assigned", eqs if name.endswith("_gate") else ())
