def cpp(harness, repo=(), **kw):
    return dict(kind="cpp", harness=[harness] if isinstance(harness, str) else list(harness), repo=list(repo), **kw)


ODE = ["common/ode.cpp", "common/mfem_extensions.cpp", "common/evolver.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp", "common/inexact_newton.cpp", "physics/miso_input.cpp", "utils/utils.cpp"]
FIELDS = ["physics/finite_element_vector.cpp", "physics/finite_element_state.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp"]
FORMS = FIELDS + ["common/coefficient.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp", "physics/miso_nonlinearform.cpp", "physics/miso_integrator.cpp"]
COEFFS = ["physics/electromagnetics/%s_coefficient.cpp" % f for f in ["reluctivity", "conductivity", "remnant_flux", "demag_flux", "cal2_kh", "cal2_ke"]] + ["physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/current_source_functions.cpp", "common/material_library.cpp"]
MC = "model_checking"
REGISTRY = {
    "C01": dict(level=MC, parts=[cpp("checks/c01_logging.cpp")]),
    "C02": dict(level=MC, parts=[cpp("checks/c02_linesearch.cpp", ["common/linesearch.cpp"], asan=False)]),
    "C03": dict(level=MC, parts=[cpp("checks/c03_relaxed_newton.cpp", ["common/linesearch.cpp", "common/relaxed_newton.cpp"], asan=False)]),
    "C04": dict(level=MC, parts=[cpp("checks/c04_inexact_newton.cpp", ["common/inexact_newton.cpp", "utils/utils.cpp"], asan=False)]),
    "C05": dict(level=MC, parts=[cpp("checks/c05_kdtree.cpp")]),
    "C06": dict(level=MC, parts=[cpp("checks/c06_sbp.cpp", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"])]),
    "C08": dict(level=MC, parts=[cpp("checks/c08_orthopoly.cpp", ["common/orthopoly.cpp", "utils/utils.cpp"])]),
    "C07": dict(level=MC, parts=[cpp("checks/c07_collections.cpp", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"])]),
    "C19": dict(level=MC, parts=[cpp("checks/c19_roots.cpp", ["utils/utils.cpp"], asan=False)]),
    "C20": dict(level=MC, parts=[cpp("checks/c20_recon.cpp", ["utils/utils.cpp"], extra=["-DMFEM_USE_LAPACK"])]),
    "C21": dict(level=MC, parts=[cpp("checks/c21_annulus.cpp", ["utils/utils.cpp"])]),
    "C10": dict(level=MC, parts=[cpp("checks/c10_ode.cpp", ODE, asan=False)]),
    "C11": dict(level=MC, parts=[cpp("checks/c11_spacetime.cpp", ODE, asan=False)]),
    "C12": dict(level=MC, parts=[cpp("checks/c12_driver.cpp", ODE + ["common/abstract_solver.cpp", "common/default_options.cpp"], asan=False)]),
    "C13": dict(level=MC, parts=[cpp("checks/c13_outputs.cpp", ODE + ["common/abstract_solver.cpp", "common/default_options.cpp"], asan=False)]),
    "C14": dict(level=MC, parts=[cpp("checks/c14_inputs.cpp", ["physics/miso_input.cpp", "utils/utils.cpp"])]),
    "C16": dict(level=MC, parts=[cpp("checks/c16_linear.cpp", ODE, asan=True)]),
    "C17": dict(level=MC, parts=[cpp("checks/c17_euler.cpp", ["utils/utils.cpp"], asan=False)]),
    "C18": dict(level=MC, parts=[cpp("checks/c18_viscous.cpp", ["utils/utils.cpp"], asan=True)]),
    "C22": dict(level=MC, parts=[cpp("checks/c22_fields.cpp", ["physics/finite_element_vector.cpp", "physics/finite_element_state.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"])]),
    "C23": dict(level=MC, parts=[cpp("checks/c23_pde.cpp", ["physics/pde_solver.cpp", "physics/finite_element_vector.cpp", "physics/finite_element_state.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp"] + ODE)]),
    "C09": dict(level=MC, parts=[cpp("checks/c09_materials.cpp", ["common/coefficient.cpp", "common/material_library.cpp", "common/default_options.cpp"] + ["physics/electromagnetics/%s.cpp" % f for f in ["reluctivity_coefficient", "conductivity_coefficient", "remnant_flux_coefficient", "demag_flux_coefficient", "cal2_kh_coefficient", "cal2_ke_coefficient", "pm_demag_constraint_coeff"]] + ODE, asan=False, overlay=True)]),
    "C26": dict(level=MC, parts=[cpp("checks/c26_coeffs.cpp", ["common/coefficient.cpp", "physics/miso_input.cpp", "utils/utils.cpp"], asan=True, overlay=True)]),
    "C31": dict(level=MC, parts=[cpp("checks/c31_common_integ.cpp", FORMS + ["physics/mfem_common_integ.cpp", "physics/common_outputs.cpp"] + COEFFS, asan=True, overlay=True)]),
    "C32": dict(level=MC, parts=[cpp("checks/c32_thermal_integ.cpp", FORMS + ["physics/thermal/thermal_integ.cpp", "physics/mfem_common_integ.cpp", "physics/electromagnetics/electromag_integ.cpp"] + COEFFS, asan=True, overlay=True)]),
    "C27": dict(level=MC, parts=[cpp("checks/c27_forms.cpp", FORMS, asan=True, overlay=True)]),
    "C33": dict(level=MC, parts=[cpp("checks/c33_em_integ.cpp", FORMS + ["physics/mfem_common_integ.cpp", "physics/electromagnetics/electromag_integ.cpp"] + COEFFS, asan=True, overlay=True)]),
    "C28": dict(level=MC, parts=[cpp("checks/c28_em_outputs.cpp", FORMS + ["physics/mfem_common_integ.cpp", "physics/common_outputs.cpp", "physics/electromagnetics/electromag_integ.cpp", "physics/electromagnetics/electromag_outputs.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp"] + COEFFS, asan=True, overlay=True)]),
    "C34": dict(level=MC, parts=[cpp("checks/c34_sources.cpp", ["common/coefficient.cpp", "physics/miso_input.cpp", "utils/utils.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp"], asan=True, overlay=True)]),
    "C29": dict(level=MC, parts=[cpp("checks/c29_inviscid.cpp", FORMS, asan=True, overlay=True)]),
    "C35": dict(level=MC, parts=[cpp("checks/c35_viscous.cpp", FORMS, asan=True, overlay=True)]),
    "C36": dict(level=MC, parts=[cpp("checks/c36_flow_residual.cpp", FORMS + ["physics/diag_mass_integ.cpp", "physics/fluidflow/flow_residual.cpp", "common/mfem_extensions.cpp"], asan=True, overlay=True)]),
    "C37": dict(level=MC, parts=[cpp("checks/c37_flow_solver.cpp", list(dict.fromkeys(FORMS + ODE + ["physics/diag_mass_integ.cpp", "physics/fluidflow/flow_residual.cpp", "physics/fluidflow/flow_solver.cpp", "physics/pde_solver.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp"])), asan=True, overlay=True)]),
    "C38": dict(level=MC, parts=[cpp("checks/c38_flow_control.cpp", list(dict.fromkeys(FORMS + ODE + ["physics/diag_mass_integ.cpp", "physics/fluidflow/flow_residual.cpp", "physics/fluidflow/flow_control_residual.cpp", "physics/fluidflow/flow_control_solver.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp"])), asan=True, overlay=True)]),
    "C30": dict(level=MC, parts=[cpp("checks/c30_thermal.cpp", FORMS + ["physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp", "physics/mfem_common_integ.cpp", "physics/electromagnetics/electromag_integ.cpp"] + COEFFS, asan=True, overlay=True),
                                   cpp("checks/c30_magnetostatic.cpp", FORMS + ["physics/mfem_common_integ.cpp", "physics/electromagnetics/electromag_integ.cpp", "physics/electromagnetics/magnetostatic_residual.cpp", "physics/electromagnetics/magnetic_load.cpp", "physics/electromagnetics/current_load.cpp", "utils/irrotational_projector.cpp", "utils/div_free_projector.cpp", "common/mfem_extensions.cpp"] + COEFFS, asan=True, overlay=True)]),
    "C24": dict(level=MC, parts=[cpp("checks/c24_projectors.cpp", FORMS + ["physics/mfem_common_integ.cpp", "physics/electromagnetics/current_load.cpp", "physics/electromagnetics/current_source_functions.cpp", "utils/irrotational_projector.cpp", "utils/div_free_projector.cpp", "common/mfem_extensions.cpp"], asan=True, overlay=True)]),
}
