#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                  "observe_at": list(observe), "hook_needed": None}})

S = "src/simulation/"
prop("C01", "Parallel phases are free of data races",
 "In every parallel phase of a simulation, for every thread count and schedule, no two threads access the same particle datum, grid node, counter, container or object concurrently with at least one of them writing, unless the accesses are protected by mutual exclusion, combined by a reduction, or made on thread-private copies. Threads may all raise the same abort flag.",
 ["schedules", "configurations"], "all interleavings of all parallel loops, for any number of threads, in 2D and 3D",
 "The three runnable tests use one particle and sample one schedule; a race shows only under particular interleavings.",
 [S+"p2g.cpp", S+"g2p.cpp", S+"musl.cpp", S+"deformation_update.cpp", S+"explicit_euler_update.cpp", S+"position_update.cpp", S+"pbc.cpp", S+"save_data.cpp", S+"plasticity.cpp", S+"boundary_collision.cpp"],
 [("thread-local accumulation + critical merge", S+"p2g.cpp, musl.cpp"), ("per-index ownership of loop iterations", S+"g2p.cpp, position_update.cpp, explicit_euler_update.cpp"), ("reduction clauses", S+"deformation_update.cpp")])
prop("C02", "Interpolation weights form an exact B-spline basis on the stencil",
 "For quadratic and cubic splines and every particle position, the interpolation weights over the nodes visited around a particle are non-negative, sum to one, reproduce the particle position exactly, and vanish at every node not visited. The gradient weights are the exact derivative of the weights. The affine (APIC) scaling equals the inverse of the weights' second moment.",
 ["inputs", "configurations"], "all real particle positions relative to the grid; quadratic and cubic spline",
 "Tests run the quadratic spline along one trajectory; the cubic spline and the gradient identities are never evaluated.",
 ["src/tools.hpp", S+"simulation.cpp", S+"p2g.cpp", S+"g2p.cpp"],
 [("weight, first and second derivative functions", "src/tools.hpp N/dNdu/d2Ndu2"), ("stencil base index", S+"p2g.cpp, g2p.cpp, musl.cpp, deformation_update.cpp"), ("affine scaling constant", S+"simulation.cpp simulate()")])
prop("C03", "Particle-to-grid transfer conserves mass and momentum",
 "After the particle-to-grid transfer every grid node holds exactly the weight-sum of the particle masses, the mass-weighted average of the particle velocities (plus the affine term for APIC/AFLIP only), the weight-gradient sum of the particle stresses and, with material-induced friction, the weight average of the particle friction; a node without mass has zero velocity. Every particle contributes exactly once, with the same weights in 2D and 3D, and nothing of the previous step's grid survives.",
 ["inputs", "configurations"], "all particle states, transfer schemes, material-induced friction on/off, MUSL on/off, 2D/3D",
 "Only one particle, 2D, AFLIP is tested; conservation over all particle configurations is an identity, not a sample.",
 [S+"p2g.cpp", S+"musl.cpp", S+"remesh.cpp"],
 [("scatter loops", S+"p2g.cpp P2G, musl.cpp MUSL"), ("grid clearing", S+"remesh.cpp resizeGrid")])
prop("C04", "Grid-to-particle transfer and particle update follow the chosen scheme",
 "After the grid-to-particle transfer each particle holds the weight-interpolated grid velocity and, where the scheme uses them, the interpolated velocity increment and the affine moment matrix. Its deformation gradient is multiplied by (identity + dt * velocity gradient) exactly once per step, its position advances by dt times the interpolated grid velocity, and its velocity becomes the blend of incremented old velocity and interpolated velocity prescribed by the PIC/FLIP ratio (absolute value of it for the affine variants), in both the USL and the MUSL variant.",
 ["inputs", "configurations"], "all particle and grid states, all flip ratios in [-1,1], USL/MUSL, 2D/3D",
 "Only AFLIP at -0.95 in 2D USL with one particle is executed.",
 [S+"g2p.cpp", S+"deformation_update.cpp", S+"musl.cpp", S+"position_update.cpp"],
 [("gather loops", S+"g2p.cpp, deformation_update.cpp"), ("velocity blend", S+"position_update.cpp, musl.cpp")])
prop("C05", "Grid momentum update and step order",
 "In every time step each grid node with mass gets its velocity advanced by dt times (gravity minus initial particle volume times internal force over nodal mass), is then passed through the boundary conditions exactly once at its own position, and its recorded increment is the post-boundary velocity minus the pre-update velocity; massless nodes stay untouched. The phases of a step always run in the order: time step size, grid, (periodic ghosts), clearing, particle-to-grid, grid update, (ghost removal), grid-to-particle, (MUSL re-transfer and deformation), positions, moving plates.",
 ["inputs", "configurations", "histories"], "all grid states, all feature flag combinations, every step of every run",
 "Feature-flag combinations (periodic, MUSL) are never run by the available tests.",
 [S+"explicit_euler_update.cpp", S+"simulation.cpp"],
 [("explicit update", S+"explicit_euler_update.cpp"), ("advanceStep", S+"simulation.cpp")])
prop("C06", "Axis-aligned plates enforce their boundary condition",
 "A velocity at a point inside a plate leaves the boundary treatment, relative to the moving plate, as follows: zero for no-slip; for slip-stick the normal component is zero and the tangential part keeps its direction while its magnitude drops by friction times the normal speed, not below zero; for slip-free the same applies only when moving into the plate and otherwise nothing changes. This holds for every plate side in 2D and 3D, with the plate's own friction or, when enabled, the material-induced friction of that node, and points outside a plate are unaffected.",
 ["inputs", "configurations"], "all velocities, plate velocities and friction values; all plate sides x boundary conditions x 2D/3D",
 "No runnable test has a plate; 3D is never compiled.",
 [S+"boundary_collision.cpp", "src/objects/object_plate.hpp"],
 [("plate collision response", S+"boundary_collision.cpp")])
prop("C07", "General objects and terrains enforce their boundary condition",
 "A velocity at a point inside a terrain/object leaves the boundary treatment as zero for no-slip; for slip-stick with no component along the surface normal, and for slip-free so only when moving into the object and otherwise unchanged; in both slip cases an inward motion reduces the tangential part by friction times the inward speed along its own direction, never reversing it. The test point is the position the node would reach within the step, points outside leave the velocity unchanged, and the objects in list order, then the plates in list order, are each applied to the result of the previous one.",
 ["inputs", "configurations", "histories"], "all velocities, unit normals, friction values, any number and order of objects",
 "One frictionless slip-free object is tested along one trajectory.",
 [S+"boundary_collision.cpp"], [("object collision response", S+"boundary_collision.cpp")])
prop("C08", "Analytical terrains: outward unit normal agrees with the occupied region",
 "For every analytical terrain object and every point of its curved or inclined surface (not the planar cut-off rim that bounds some of them), the reported normal is of unit length, parallel to the gradient of the surface that separates occupied from free points, and points from the occupied to the free side.",
 ["inputs"], "all points, all shape parameters, all analytical objects",
 "One point of one object is checked by the runnable tests.",
 ["src/objects/object_bump.hpp", "src/objects/object_curve.hpp", "src/objects/object_gate.hpp", "src/objects/object_ground.hpp", "src/objects/object_ramp.hpp", "src/objects/object_silo.hpp"],
 [("inside()/normal() pairs", "src/objects/*.hpp")])
prop("C09", "Plates occupy and move through the right half-space",
 "A plate contains exactly the points on its blocked side (at or beyond its position along its normal axis) and, for the sides with limits, strictly between its lower and upper limit along the tangential axis. Each step a plate's position advances by dt times its velocity along its normal axis and its limits by dt times its velocity along the tangential axis, where the velocity is the prescribed one, divided by the start-up factor during the loading period; after each move the velocity seen by the boundary treatment is that same velocity.",
 ["inputs", "configurations", "histories"], "all points, plate parameters, times; all plate sides in 2D and 3D",
 "No runnable test uses a plate.",
 ["src/objects/object_plate.hpp", S+"simulation.cpp"], [("inside, move", "src/objects/object_plate.hpp"), ("moveObjects", S+"simulation.cpp")])
prop("C10", "Time step respects stability limits and lands on frames",
 "Unless smaller than the minimum step, the chosen time step never exceeds the elastic wave limit, nor the CFL limit computed from the largest particle speed whenever that speed is not negligible, nor the time left to the next frame or to the end of the simulation; it is never smaller than the minimum step. With gradual gravity, gravity grows linearly with time up to its full value and then stays there.",
 ["inputs", "histories"], "all particle velocities, times, frames and parameters",
 "A single run samples a few dozen values of the state.",
 [S+"update_dt.cpp", S+"simulation.cpp"], [("updateDt", S+"update_dt.cpp"), ("derived constants", S+"simulation.cpp simulate()")])
prop("C11", "Every frame is reached and saved exactly as configured",
 "When saving is enabled, a completed simulation writes the initial state as frame 0 before the first step and the particle state at every frame up to the last one at the time that frame ends (to within about one minimum time step), plus grid data when requested; the frame counter grows by one per frame, simulated time advances by exactly the step used, and timing is written at the end. When saving is disabled nothing is ever written.",
 ["histories", "configurations"], "all runs, all frame counts and flag combinations",
 "All runnable tests disable saving.",
 [S+"simulation.cpp"], [("simulate loop", S+"simulation.cpp")])
prop("C12", "The background grid always covers every particle's stencil",
 "After the initial meshing and after every adaptive re-meshing, the grid extends beyond the particle domain by at least the nodes read or written around any particle, in every direction, its nodes are spaced by exactly the cell size, the node counts and the origin match the node coordinates, and all node arrays have one entry per node.",
 ["inputs", "histories", "configurations"], "all particle clouds, all growth/shrink histories, with or without a reference point, 2D/3D",
 "One particle on one path; growth and shrink factors are rounding decisions over reals.",
 [S+"remesh.cpp", "src/tools.hpp"], [("remeshFixedInit / remeshFixedCont / resizeGrid", S+"remesh.cpp"), ("arange", "src/tools.hpp")])
prop("C13", "Periodic images are complete, exact, and fully removed",
 "With periodic boundaries and a period wider than the two image bands, before each transfer (including the MUSL re-transfer) every particle strictly within the band at one end of the period gets exactly one image, shifted by exactly one period and carrying every particle quantity the transfer reads; after the transfer has been used exactly the added images are removed again, so particle count and data are those of the real particles. After the position update particles leaving at one end re-enter at the other shifted by exactly one period.",
 ["inputs", "configurations", "schedules"], "all particle positions, period lengths, feature flags",
 "No runnable test enables periodic boundaries.",
 [S+"pbc.cpp", S+"position_update.cpp", S+"simulation.cpp"], [("add/delete images", S+"pbc.cpp"), ("wrap-around", S+"position_update.cpp")])
prop("C14", "Plastic flow keeps strain, stress and plastic records consistent",
 "For every plastic model, a plastic correction stores an elastic deformation and a stress that belong to the same elastic strain, leaves the principal directions unchanged, adds exactly the removed deviatoric and volumetric strain to the accumulated plastic strains, and reports a plastic shear rate equal to the deviatoric increment over dt times the model's prefactor. A particle that stays elastic keeps its trial deformation and its accumulated plastic strains and has zero plastic shear rate. With the volume-correction option, the volumetric strain discarded at the cone tip accumulates and is given back on later correction, and the record is reset to the remainder. (The rate-dependent cam-clay model satisfies this up to its stress tolerance.)",
 ["inputs", "configurations"], "all trial deformations and parameters; all plastic models x hardening laws x options",
 "No runnable test uses plasticity.",
 [S+"plasticity.cpp", S+"g2p.cpp", S+"deformation_update.cpp"], [("plasticity", S+"plasticity.cpp")])
prop("C15", "Plastic models return stresses to their yield surface",
 "Rate-independent von Mises and Drucker-Prager models (with cohesion, volume correction or strain softening) treat a trial stress as plastic exactly when it violates the yield condition, and return it to the yield surface, or to the cone tip when beyond it. The viscous variants return the deviatoric stress to the surface plus the overstress of their law: for linear viscosity in closed form (Perzyna or Duvaut-Lions), otherwise the equation whose zero their local iteration accepts is exactly that overstress law; vanishing viscosity gives the rate-independent result. The cam-clay return mapping treats a state as plastic exactly when its (hardened, for the chosen hardening law) ellipse is violated and ends within the pressure range of the ellipse with the deviatoric stress on it. The rate-dependent friction models return to the cone whose friction follows the mu(I) law at the plastic shear rate they report, and record that friction and viscosity.",
 ["inputs", "configurations"], "all trial stresses and material parameters",
 "No runnable test uses plasticity.",
 [S+"plasticity.cpp", "src/plasticity_helpers/"], [("yield checks and returns", S+"plasticity.cpp"), ("MCC return mapping", "src/plasticity_helpers/*.hpp")])
prop("C16", "Elastic stress follows the chosen elastic law",
 "For every deformation the stored stress is the Kirchhoff stress of the selected law: lambda times the trace of the logarithmic strain plus 2 mu times that strain in the deformation's own principal directions (Hencky), or mu(FF^T - I) + lambda ln(det F) I (Neo-Hookean). The elastic constants and wave speed derive from Young's modulus, Poisson's ratio and density by the standard relations for the chosen dimension.",
 ["inputs", "configurations"], "all deformations, all elastic parameters, 2D/3D",
 "Only one Hencky particle is exercised and only its velocity is compared.",
 [S+"plasticity.cpp", S+"simulation.cpp", S+"simulation.hpp"], [("stress update", S+"plasticity.cpp"), ("moduli", S+"simulation.cpp")])
prop("C17", "No result ever depends on an uninitialised value",
 "For every combination of elastic model, plastic model, hardening law, boundary condition, plate side, transfer scheme and feature flags, every quantity that a phase of a step, a constitutive update, a boundary treatment, a sampling routine, an object or a saved file produces is determined by the inputs: no local, array element or class member is used before it has been given a value. In particular every member a step relies on has been set by construction, set-up, sampling, the start of the simulation or an earlier phase, in the first and in every later step (the cell size being the user's input for the lattice sampling routines).",
 ["configurations", "inputs", "histories"], "all enumerated option combinations, all inputs, first and later steps",
 "The combinatorial option space is untouched by the three tests, and an uninitialised read usually yields plausible values.",
 [S+"plasticity.cpp", S+"boundary_collision.cpp", S+"simulation.cpp", S+"remesh.cpp", S+"p2g.cpp", S+"g2p.cpp", "src/objects/", "src/sampling/", "src/data_structures.hpp"], [("definite assignment of locals and members", "all of src"), ("neutral initial particle values", "src/data_structures.hpp Particles")])
prop("C18", "Errors stop the simulation and invalid setups never start",
 "A simulation that was not initialised, that combines a plastic model with a non-Hencky elastic model, or whose output set-up failed performs no step and writes no frame. Once an unrecoverable error is raised during a step, no further time is advanced, no later frame is written and no further step is taken. An invalid hardening law or boundary condition, a negative plastic multiplier or a failed local iteration in the viscous von Mises, Drucker-Prager and cam-clay laws, a Duvaut-Lions cam-clay model with exponent other than one, and a failed copy of the set-up always raise it; the flag is never lowered again.",
 ["configurations", "histories", "fault_sequences"], "all setups, all points at which an error can be raised",
 "No test exercises an error path.",
 [S+"simulation.cpp", S+"plasticity.cpp", S+"boundary_collision.cpp"], [("simulate guards", S+"simulation.cpp"), ("abort flag", S+"plasticity.cpp, boundary_collision.cpp")])
prop("C19", "Saved files contain each quantity once, complete and correctly labelled",
 "Every saved particle or grid file holds one record per particle or node in storage order, each column labelled with the quantity it contains, all columns of equal length, in binary form and under the name of the frame it belongs to; saved pressure, shear stress and volume ratio are derived from the particle's stored stress and deformation, and the averages file holds the mean volume ratio and the volume-weighted mean Cauchy and Kirchhoff stresses of all particles. The run information file lists end frame, frame rate, cell size, particle count and particle volume in the order its reader expects.",
 ["inputs", "configurations"], "all particle/grid states, all model options, 2D/3D",
 "The file writer is not even compiled by the available tests.",
 [S+"save_data.cpp", "postprocess/load_ply.py"], [("PLY column table", S+"save_data.cpp"), ("info file", S+"save_data.cpp saveInfo; postprocess/load_ply.py")])
prop("C20", "Sampling yields a consistent, correctly weighted particle set",
 "Every sampling routine sets the particle count to the number of sampled points, allocates every particle quantity with that count and its neutral initial value, keeps every sampled point of the requested domain (inside the box, the cropped shape or the level set) and only those, on a lattice of spacing cell size over the root of particles-per-cell for the regular routines and from a Poisson-disk sampler given the domain box and the radius, attempts and seed arguments for the random ones, and sets particle volume to cell volume over particles-per-cell and particle mass to density times that volume.",
 ["inputs", "configurations"], "all domain sizes, spacings, shapes; 2D/3D",
 "No runnable test samples particles.",
 ["src/sampling/", "src/data_structures.hpp"], [("sampling functions", "src/sampling/*.hpp"), ("Particles constructor", "src/data_structures.hpp")])
prop("C21", "All formulas are dimensionally consistent",
 "Throughout the solver, quantities that are added, subtracted, compared, assigned or passed as arguments to exponential-type functions have matching physical dimensions (length, time, mass), for every model and option.",
 ["inputs", "configurations"], "all executions (change of units leaves results unchanged up to the units), all models",
 "A unit error is invisible in a run with fixed unit magnitudes and coarse tolerances.",
 ["src/simulation/", "src/plasticity_helpers/", "src/objects/", "src/sampling/"], [("every arithmetic expression", "src/")])
# --- not decided by static analysis
prop("C90", "Energy never grows spuriously",
 "Without external work, the sum of kinetic and elastic energy never increases, and plastic or frictional processes only dissipate it.",
 ["inputs", "histories"], "all initial states and run lengths",
 "Holds (approximately) only as a numerical property of the discretisation over long histories.",
 ["src/simulation/"], [("symplectic update", "src/simulation/")])
prop("C91", "Local Newton iterations converge for all physical inputs",
 "For every admissible trial state and parameter set, the iterative viscous and hardening return mappings reach their tolerance within the iteration limit.",
 ["inputs"], "all trial states and parameters",
 "Convergence depends on real-valued iterates over an unbounded input space.",
 ["src/simulation/plasticity.cpp", "src/plasticity_helpers/"], [("Newton loops", "src/plasticity_helpers/")])
prop("C92", "Results are reproducible for any thread count up to rounding",
 "Runs that differ only in the number of threads give the same particle trajectories up to accumulated floating-point rounding.",
 ["schedules", "histories"], "all runs, thread counts and schedules",
 "Rounding differences are amplified by yielding and contact decisions over long histories.",
 ["src/simulation/p2g.cpp"], [("summation order in the merge", "src/simulation/p2g.cpp")])
prop("C93", "Stable time steps keep all fields finite",
 "With CFL constants in their recommended range no particle or grid quantity ever becomes infinite or NaN.",
 ["inputs", "histories"], "all stable configurations and run lengths",
 "Depends on the magnitude of values over the whole history.",
 ["src/simulation/"], [("dt limits, strain clamping", "src/simulation/update_dt.cpp, plasticity.cpp")])
prop("C94", "Level-set terrains loaded from file match their geometry",
 "For terrains loaded from a level-set file, occupied points and normals agree with the interpolated signed distance stored in the file.",
 ["inputs"], "all level-set files and points",
 "Depends on file contents and the third-party interpolation library.",
 ["src/objects/object_vdb.hpp"], [("OpenVDB sampling", "src/objects/object_vdb.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
