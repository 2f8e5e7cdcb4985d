# What each check builds and how much it runs.  cases = (quick, thorough).
CHECKS = {}
def check(pid, **kw): CHECKS[pid] = kw

check("P01", harness=["p01_marray_history.cpp"], cases=(300000, 6000000),
      rule="A case is a random history of up to 26 construct/copy/move/assign/swap/resize/reshape/insert/erase/write operations on up to six live arrays of rank 1-4, compared after every operation with a naive model; non-trivial: the history both inserts and removes elements.",
      assumptions=["The naive index-arithmetic model in harness/marray_model.h."])

check("P02", harness=["p02_marray_access.cpp"], cases=(300000, 5000000),
      rule="A case is an array of rank 1-5 with known contents (built directly, by reshape, or by insert+erase), read and written through every access form, or a random walk of one of its iterators; non-trivial: at least one element and (up to the rank) two dimensions of extent above 1, or an iterator over more than two elements.",
      assumptions=["The naive index-arithmetic model in harness/marray_model.h."])

check("P03", harness=["p03_marray_arith.cpp"], cases=(1200000, 20000000),
      rule="A case is one operator or function applied to generated operands (equal, broadcastable or incompatible shapes; equal or different ranks and element types; array with scalar), compared elementwise with a naive evaluation; non-trivial: operands of more than one element (for array pairs: of different but compatible shapes).",
      assumptions=["The naive broadcasting model in the harness; the C library's functions for the elementwise references."])

check("P04", harness=["p04_marray_sum.cpp"], cases=(250000, 5000000),
      rule="A case is an array of rank 1-5 of exactly addable values, summed completely and along every dimension in both forms and compared with a naive sum; non-trivial: (up to the rank) two dimensions of extent above 1.",
      assumptions=["Values are chosen so that addition is exact; the order of addition is not prescribed."])

check("P05", harness=["p05_marray_lifetime.cpp"], cases=(400000, 8000000),
      rule="A case is a history of constructions, copies, moves, assignments, swaps, inserts, erases and resizes of arrays of self-registering elements with tracking allocators, half of the operations with a failure (of an allocation or of an element's construction, copy or move) injected at a generated point; after every step the living elements, the allocated blocks and every array's value are compared with the model; non-trivial: at least one injected failure struck and more than two operations ran.",
      assumptions=["Element move operations that are declared noexcept do not throw.", "A moved-from array may hold anything consistent."])

check("P06", harness=["p06_aligned_alloc.cpp"], cases=(300000, 6000000),
      rule="A case is a history of allocations and deallocations with alignments up to 2^16 (limits: up to 2^31), with every byte written and re-read and the underlying memory tracked, or an array using the allocator; non-trivial: more than one block was freed in a history of more than three steps (or a generated limit/array case).",
      assumptions=["The global operator new is replaced by a tracking one."])

check("P07", harness=["p07_tables.cpp"], repo_src=["tools.cpp"], cases=(250000, 4000000),
      rule="A case is a generated array written and read back, a generated text table read, or a missing file; non-trivial: more than one row and more than one column.",
      assumptions=["Numbers are finite (the text form of infinities cannot be read back).", "The C library's strtod as the meaning of a number's text."])

check("P08", harness=["p08_spaces.cpp"], repo_src=["tools.cpp"], cases=(400000, 6000000),
      rule="A case is one linear or logarithmic sample space, compared sample by sample with long-double arithmetic; non-trivial: more than two samples between different ends.",
      assumptions=["Logarithmic ends are positive.", "One rounding per sample is allowed to accumulate."])

check("P09", harness=["p09_gsl.cpp"], repo_src=["tools.cpp"], cases=(800000, 12000000),
      rule="A case is one complex matrix (with, for changes of basis, a general or unitary transformation) put through the helper and compared with naive products; non-trivial: more than one element.",
      assumptions=["Naive complex matrix products."])

check("P10", harness=["p10_akima.cpp"], repo_src=["tools.cpp"], cases=(1200000, 20000000),
      rule="A case is a spline over 3 to 43 generated knots (regular or not; smooth, random, cornered, stepped data) whose knots, slopes and values inside and outside the range are compared with a long-double reference, or a set of data that must be refused; non-trivial: more than three knots.",
      assumptions=["Akima's definition with corners where both neighbouring pairs of slopes agree, evaluated in long double with rounding bounds; points where rounding decides the slope are not compared."])

check("P11", harness=["p11_bicubic.cpp"], repo_src=["tools.cpp"], cases=(400000, 6000000),
      rule="A case is an interpolator over a generated grid compared at every grid point and at 12 other points with a long-double tensor-product reference, or data that must be refused; non-trivial: the two axes have different numbers of points.",
      assumptions=["The reference takes the slopes at the grid points from one-dimensional Akima splines, as documented; points where rounding decides a slope are not compared."])

check("P12", harness=["p12_tricubic.cpp"], repo_src=["tools.cpp"], cases=(60000, 1200000),
      rule="A case is an interpolator over a generated grid compared at 15 grid points and at 12 other points with a long-double tensor-product reference, or data that must be refused; non-trivial: the three axes do not all have the same number of points.",
      assumptions=["The reference takes the slopes at the grid points from one-dimensional Akima splines, as documented; points where rounding decides a slope are not compared."])

check("P13", harness=["p13_hdf5.cpp"], repo_src=["tools.cpp"], cases=(60000, 1000000),
      rule="A case writes one to three arrays (rank 1-4, possibly empty or larger than a chunk, any compression, several element types) or up to six attributes to an HDF5 file in memory or on disk and reads them back, also in the ways that must be refused; non-trivial: an array of more than one element, more than one attribute, or more than one object.",
      assumptions=["The installed HDF5 library.", "Text attributes do not end in null characters.", "Element type conversions are exact for the values used."])

check("P14", harness=["p14_handles.cpp"], repo_src=["tools.cpp"], cases=(200000, 3000000),
      rule="A case is a history of handle constructions, moves and destructions against a model of ownership, or of HDF5 reads and writes (some of which must fail) with the library's count of open objects compared after each; non-trivial: at least one move, respectively at least one refused operation among more than three.",
      assumptions=["The HDF5 library's own count of open objects."])

check("P15", harness=["p15_quad.cpp"], cases=(1000000, 20000000), fuzz_s=0,
      rule="A case integrates a sum of terms with known integrals (polynomials, smooth functions, functions with a kink, jump or root singularity) to a generated tolerance, forwards and backwards, with and without known end point values, or asks for something that must be refused; non-trivial: all but single-term polynomials.",
      assumptions=["Closed-form integrals in long double.", "The error is compared with the tolerance times the integral of the absolute terms, with a generous factor, because the stopping rule is heuristic: 1000 for smooth functions, and for functions with one kink, jump or root singularity 50 for most positions of it."])

check("P16", harness=["p16_integrate.cpp"], repo_src=["tools.cpp"], cases=(200000, 3000000), fuzz_s=0,
      rule="A case integrates a sum of up to four positive smooth terms with known integrals to a generated accuracy, in either direction, with a fresh or a used workspace, whole and in two parts; non-trivial: more than one term.",
      assumptions=["Closed-form integrals in long double.", "GSL's error handler is off."])

check("P20", harness=["p20_resources.cpp"], repo_src=["resources.cpp"], cases=(100000, 1000000), fuzz_s=0,
      variants=[{"name": "source", "share": 0.5}, {"name": "installed", "share": 0.5, "defs": ["-DPBT_INSTALL_BIT=true"]}],
      rule="A case is a history of up to twelve changes to the environment, the path being asked for after each; non-trivial: more than one change of the variable that matters.",
      assumptions=["The two paths configure would write are given by a generated header, once with and once without the installed flag."])

check("P17", harness=["p17_taudecay.cpp"], repo_src=["taudecay.cpp"], cases=(500000, 8000000), fuzz_s=0,
      rule="A case evaluates one decay channel at generated tau and daughter energies (including next to the kinematic limits) against the published formulas in long double, or integrates all of them; non-trivial: the daughter carries neither nothing nor everything.",
      assumptions=["The formulas and constants of Dutta, Reno and Sarcevic, PRD 62 123001, as transcribed in harness/tau_ref.h.", "The daughter's energy does not exceed the tau's."])

check("P18", harness=["p18_tautables.cpp"], repo_src=["taudecay.cpp"], cases=(60000, 1000000), fuzz_s=0,
      rule="A case builds the tables for generated energy nodes (once or twice, original, copy or moved) and compares 40 entries of each with the formulas, plus indices that must be refused; non-trivial: more than two nodes.",
      assumptions=["The formulas of P17.", "Entries whose daughter energy exceeds the parent's are outside the property."])

check("P19", harness=["p19_threadpool.cpp"], cases=(80000, 1000000), workers=4, fuzz_s=0, hang=20,
      variants=[{"name": "asan", "share": 0.6}, {"name": "tsan", "san": "tsan", "share": 0.4}],
      rule="A case is a pool of one to eight threads fed by up to four producers with generated delays, throwing and nested tasks, ended with or without waiting; or tasks that must meet, keep their order, or be refused; non-trivial: more than one task and more than one thread.",
      assumptions=["Schedules are those the operating system produces under generated delays, observed also under ThreadSanitizer."])

BODY = ["body.cpp", "tools.cpp", "resources.cpp"]
check("P21", harness=["p21_tracks.cpp"], repo_src=BODY, shim=True, cases=(300000, 4000000),
      rule="A case is one track of a generated kind, geometry and way of making it, taken through a history of moving, reversing and copying; non-trivial: more than one step.",
      assumptions=["The stand-in for the SQuIDS units in shim/."])
check("P22", harness=["p22_density.cpp"], repo_src=BODY, shim=True, cases=(100000, 1500000), fuzz_s=0,
      rule="A case is one body with a generated or the shipped model, asked for its density and electron fraction at twelve points of generated tracks; non-trivial: all but uniform bodies.",
      assumptions=["The spline of P10 is the interpolation between the model's points; the distance from the centre is computed in long double and points within its rounding error of a jump may take either side.", "The stand-in for the SQuIDS units in shim/."])
check("P23", harness=["p23_bodyio.cpp"], repo_src=BODY, shim=True, cases=(60000, 800000),
      rule="A case stores one body and three of its tracks (possibly reversed) in an HDF5 file and reads them back by name, or asks for an unknown name or reads from a group without data; non-trivial: every case.",
      assumptions=["The installed HDF5 library.", "The stand-in for the SQuIDS units in shim/."])

XSEC = ["xsections.cpp", "tools.cpp", "resources.cpp"]
check("P24", harness=["p24_xsv1.cpp"], repo_src=XSEC, shim=True, cases=(12000, 200000), fuzz_s=0,
      rule="A case is one generated set of tables read from text or HDF5, compared with bilinear interpolation at generated energies (nodes, both ends and the diagonal included), outside its range, and after writing and reading it in both formats, or a set of files that must be refused; non-trivial: more than two energies.",
      assumptions=["Energies of a table are equally spaced in logarithm, as its documentation demands.", "Outgoing energies below the table are outside the property."])
check("P25", harness=["p25_xsv2.cpp"], repo_src=XSEC, shim=True, cases=(12000, 200000), fuzz_s=0,
      rule="A case is one generated set of tables (one or three flavors, as many or fewer z values than energies) read from text or HDF5, compared with the interpolators of P10 and P11 at generated energies, outside its range, or after writing and reading it in both formats, or a set of files that must be refused; non-trivial: the table is not square (or has three flavors).",
      assumptions=["The interpolators of P10 and P11.", "HDF5 files hold single precision, so smooth tables are compared to 3e-3 after one.", "Outgoing energies above the incoming one are outside the property."])
check("P26", harness=["p26_library.cpp"], repo_src=XSEC, shim=True, cases=(150000, 2000000), fuzz_s=0,
      rule="A case evaluates the resonance at generated energies, or takes a library of targets through a history of additions and copies, or loads the default library from generated files; non-trivial: near the resonance, respectively at least one refused redefinition and one copy.",
      assumptions=["The published cross section in long double.", "The stand-in for the SQuIDS constants in shim/."])
check("P27", harness=["p27_averages.cpp"], repo_src=XSEC, shim=True, cases=(60000, 1000000), fuzz_s=0,
      rule="A case averages a monotone cross section with a known integral over one generated bin (wrong flavors, types, currents and energies being noticed), or the averages of a generated table; non-trivial: more than one term, or a table.",
      assumptions=["The integration's stopping rule is heuristic with a tolerance of 1e-3, so averages are compared to 5e-3 for bins up to a factor of 3 and 5e-2 for wider ones."])

NUSQ = ["nuSQuIDS.cpp", "body.cpp", "xsections.cpp", "tools.cpp", "taudecay.cpp", "resources.cpp"]
check("P28", harness=["p28_constant.cpp"], repo_src=NUSQ, shim=True, cases=(12000, 200000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves one to three legs through vacuum or matter of constant density, forwards or backwards, in the interaction basis, the mass basis, by the fast path or mixed, for 3-6 flavors, neutrinos, antineutrinos or both, at one or several energies, and compares every flavor and mass component at every node before and after every leg with exponentials of the Hamiltonian; non-trivial: oscillations are on and the masses differ.",
      assumptions=["harness/nu_ref.h: plain complex matrices.", "The SQuIDS stand-in in shim/: the installed sandbox has no SQuIDS.", "The integrator is asked for a precision of 1e-9 and given 2e-6 per leg."])

check("P29", harness=["p29_variable.cpp"], repo_src=NUSQ, shim=True, cases=(1500, 30000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves through one or two bodies whose density or composition varies (a body of the harness's own, VariableDensity, Earth, EarthAtm, Sun) and compares with thousands of short slices; or one track whole and in pieces; or there and back; or with the low-pass filter against the filtered equation; non-trivial: the masses differ (low-pass: something is filtered).",
      assumptions=["harness/nu_ref.h: fourth-order Magnus slices; densities are taken from the bodies, whose values P22 decides.", "The SQuIDS stand-in in shim/.", "Tolerances: 2e-6 for smooth bodies to 2e-3 for bodies with jumps."])
check("P30", harness=["p30_interactions.cpp"], repo_src=NUSQ, shim=True, cases=(4000, 80000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves one or two legs through vacuum, uniform or varying matter with generated cross sections and options enabled or replaced in a generated order, and compares every flavor and mass component at every node with a Runge-Kutta solution of the cascade equations written out with plain matrices; or compares pure attenuation with the exponential law; or does something that must be refused; non-trivial: more than one energy.",
      assumptions=["harness/nu_int.h: the cascade equations on the nodes, with the bins the documentation of the cross sections implies.", "The tau spectra of P17 and P18.", "The SQuIDS stand-in in shim/.", "With protons and neutrons the daughters' spectra are weighted by the number of targets, as implemented."])
check("P31", harness=["p31_sources.cpp"], repo_src=NUSQ, shim=True, cases=(2500, 80000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves one to three legs through bodies that inject generated fluxes (steady, varying, or only along parts of the track, filling all or some entries) or none, sources switched on and off in between, with or without interactions and oscillations, and compares every flavor and mass component at every node with a Runge-Kutta solution in plain matrices; non-trivial: at least one body injected.",
      assumptions=["harness/nu_int.h.", "The SQuIDS stand-in in shim/."])
check("P32", harness=["p32_positivity.cpp"], repo_src=NUSQ, shim=True, cases=(2500, 50000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves one or two legs with the positivity constraint and a generated step, from initial states with negative entries and through bodies that take flux away, forwards or backwards, with or without interactions and oscillations, and compares with a Runge-Kutta solution in plain matrices whose negative flavors are set to zero at every step; non-trivial: something negative was removed and there was more than one step.",
      assumptions=["harness/nu_int.h.", "The SQuIDS stand-in in shim/."])
check("P33", harness=["p33_state.cpp"], repo_src=NUSQ, shim=True, cases=(3000, 60000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case writes a state after zero to two legs to a generated place of an HDF5 file (tables inside, apart, or shared), reads it into a new object or over another of a different size, compares everything it reports and evolves both one leg further; or removes one link or attribute from the file, or does something that must be refused; non-trivial: evolved before writing, or something removed or refused.",
      assumptions=["The installed HDF5 library.", "The SQuIDS stand-in in shim/."])
check("P34", harness=["p34_moves.cpp"], repo_src=NUSQ, shim=True, cases=(3000, 60000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case gives two objects the same history (options, bodies, tracks, states, up to three legs) and moves one of them in between, by construction, assignment over others of any size and state, through vectors and swaps, comparing everything both report bit for bit; or copies, moves, changes and compares interaction structures next to plain vectors; non-trivial: moved at least once, or copied and changed.",
      assumptions=["The SQuIDS stand-in in shim/."])
check("P35", harness=["p35_evaluation.cpp"], repo_src=NUSQ, shim=True, cases=(4000, 80000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case evolves up to two generated legs (any options, with or without interactions) and compares every kind of evaluation at generated energies, indices and averaging scales with what the states stored at the energies, interpolated, phased and projected in plain matrices, give; or asks for something out of range; non-trivial: evolved, and evaluated between two energies (or in the single energy mode), or something refused.",
      assumptions=["The SQuIDS stand-in in shim/, which defines how states are interpolated between two nodes and which phases count as beyond the scale.", "That the states stored at the nodes are right is decided by P28 to P32."])
check("P36", harness=["p36_atmosphere.cpp"], repo_src=NUSQ, shim=True, cases=(7000, 120000), fuzz_s=0, opt="-O2", hang=200,
      variants=[{"name": "asan", "share": 0.9}, {"name": "tsan", "san": "tsan", "share": 0.1}],
      rule="A case takes an ensemble of up to four zeniths and one object per zenith through the same history (options for all or one, Earth models, moves, initial states, evolutions on one to six threads), compares all states bit for bit and evaluations at generated zeniths, energies, averaging scales and heights with the interpolation of the objects' states in plain matrices; or lets some zeniths fail; or asks for something out of range; non-trivial: evolved with more than one zenith, or failed with threads, or something refused.",
      assumptions=["The SQuIDS stand-in in shim/.", "Schedules are those the operating system produces, observed also under ThreadSanitizer.", "That one object evolves rightly is decided by P28 to P32."])
check("P37", harness=["p37_atmstate.cpp"], repo_src=NUSQ, shim=True, cases=(1500, 30000), fuzz_s=0, opt="-O2", hang=200,
      rule="A case writes an ensemble of up to four zeniths after zero to two evolutions into a new file, over another or beside another state, reads it into a new object or over another one (also one moved from), compares every evaluation, parameter, clock, track and body and evolves both one leg further; or removes or spoils one part of the file; or does something that must be refused; non-trivial: evolved before writing with more than one zenith, or something removed or refused.",
      assumptions=["The installed HDF5 library.", "The SQuIDS stand-in in shim/.", "Zeniths that agree to six decimals share a name in the file and are not generated."])
check("P38", harness=["p38_protocol.cpp"], repo_src=NUSQ, shim=True, cases=(40000, 800000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case takes one object through up to 16 generated steps (bodies, tracks, energies, parameters, states of right and wrong shapes, evolutions, nonsense) and compares, after every one, whether it was refused, every parameter and every evaluation with a model in plain matrices; or changes parameters, energy, place and state in any order and compares the Hamiltonian returned with a matrix; or makes an object of generated sizes; or one without arguments in dirty memory; non-trivial: evolved and refused something, changed, or made.",
      assumptions=["The SQuIDS stand-in in shim/, which refuses what the library refuses (order of indices, unsorted energies)."])
check("P39", harness=["p39_versions.cpp"], repo_src=NUSQ, shim=True, cases=(1500, 30000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case writes a state after zero to two legs, in one of seven bodies, rewrites the file in the layout of an earlier version (body and track as lists of parameters, tables for one target only, one table of tau decays, no options), reads it into a new object, over another, or with given tables, compares everything and evolves one leg further; or makes it describe no state and reads it, which must be refused; non-trivial: every case.",
      assumptions=["The earlier layouts are those that the reading code describes, with parameters in the order in which bodies and tracks still list them; no file written by an earlier version was at hand.", "The SQuIDS stand-in in shim/."])
_SOLAR = "../resources/user_contributions/SolarTransitions"
check("P40", harness=["p40_solar.cpp"], repo_src=NUSQ + [_SOLAR + "/SolarModel.cpp", _SOLAR + "/SolarProbabilities.cpp"], repo_inc=[_SOLAR.replace("../", "")], shim=True, cases=(4000, 160000), fuzz_s=0, opt="-O2", hang=120,
      rule="A case writes tables of a generated Sun (or takes one of the shipped ones) and compares every answer of the model with them; or compares the survival probability of generated parameters, energies and radii, before and after changing the parameters, with eigenvectors found by Jacobi rotations; or compares the mean over the radii of production with a Gauss integral of them; non-trivial: five fluxes inside their spectra, a probability that matter changes by over 0.01, or a mean of some flux.",
      assumptions=["Levels closer together than 1e-7 of the range of levels are not compared: the order of the states is then a matter of rounding.", "Fluxes are compared within one per cent and mean probabilities within that and 0.003, ten times the accuracy the code asks of its integrals (whose estimate of the error is at times wrong by a factor of two where the tables have kinks).", "The SQuIDS stand-in in shim/, with GSL's eigenvectors."])
check("P41", harness=["p41_python.cpp"], repo_src=NUSQ + ["../resources/python/src/nuSQUIDSpy.cpp"], repo_inc=["resources/python/inc"], sys_inc=["/usr/include/python3.12", "/opt/veriftools/pyvenv/lib/python3.12/site-packages/numpy/_core/include"],
      libs=["-lboost_python312", "-lpython3.12"], defs=["-DSHIM_PYTHON", "-fno-sanitize=vptr"], env={"OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}, shim=True, cases=(5000, 160000), fuzz_s=0, opt="-O1", hang=120,
      rule="A case hands arrays of generated dimensions, types and layouts, or lists, to the module and takes them back; or makes a body and a track; or takes one object in Python and one in C++ through the same history (constructors, parameters, options, bodies, states, evolutions, files written by one and read by the other, nonsense); or two ensembles; or asks for tau decays, cross sections, vectors, grids, units and names; comparing everything bit for bit; non-trivial: more than one value, evolved, or more than one zenith.",
      assumptions=["The installed Python 3.12, NumPy and Boost.Python.", "The SQuIDS stand-in in shim/, also for the vectors and units the module shows.", "GetTransformationMatrix, the list of objects of an ensemble and the methods that return a mask through an argument cannot be called from Python and are not covered."])
