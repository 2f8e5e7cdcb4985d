# The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it.
PROPS = []
NOT_APPLICABLE = []
def prop(pid, title, statement, over, text, why, files, mechanism, level_note, technique=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, level_note=level_note, technique=technique or "property-based testing against a reference model, with shrinking"))

MA = ["include/nuSQuIDS/marray.h"]
GEN = "Generated-input search: says nothing about inputs outside the generator or beyond the sizes it reaches; trusts the reference in the harness and the sanitizers."

prop("P01", "Multidimensional arrays follow their model through any history of operations",
 "After any sequence of constructions, copies, moves, assignments, swaps, resizes, reshapes, insertions, erasures and element writes, a multidimensional array has exactly the extents and the elements, in row-major order, that the same sequence gives on a plain list of values. Elements kept by a resize, insertion or erasure keep their value at their (shifted) position, and other arrays are unaffected. Requests that cannot be met are refused with an exception and change nothing.",
 ["histories", "inputs"], "For all histories of operations on up to six arrays of rank 1 to 4, of several element types and extents from zero upwards.",
 "The two stable tests only read a few small fixed arrays; nothing resizes, inserts or erases, and the number of histories is unbounded.",
 MA, [("marray::resize/reshape/insert/erase/swap/assignment", "include/nuSQuIDS/marray.h")],
 "Random histories compared after every step with a naive model, under address and undefined-behaviour sanitizers. "+GEN)
prop("P02", "Every way to reach an array element reaches the same element",
 "Nested subscripts, index lists, checked access, first/last element access, raw data, linear iterators in both directions and conversions between constant and mutable forms all address the same row-major element, for reading and for writing. Iterators obey the laws of random-access iterators and can be used with the standard algorithms. Checked access outside the extents is refused with an exception.",
 ["inputs", "histories"], "For all shapes of rank 1 to 5 and all element positions, however the array got its shape, and all random walks of an iterator.",
 "The stable tests use one access form on small fixed arrays.",
 MA, [("subarray proxies, at(), front()/back(), iterators", "include/nuSQuIDS/marray.h")],
 "Differential comparison of all access forms with naive index arithmetic, under sanitizers. "+GEN)
prop("P03", "Array arithmetic is element by element, with broadcasting",
 "Every arithmetic operator, comparison-free mathematical function and compound assignment on arrays gives, at each position, the result of the same operation on the scalars there, with operands of fewer or unit-sized dimensions repeated along the missing ones and scalars repeated everywhere. Operands whose shapes do not fit are refused with an exception. Operands that are not assigned to are not changed.",
 ["inputs"], "For all pairs of operands of rank 1 to 4 with equal, broadcastable or incompatible shapes, and all values.",
 "No existing test uses array arithmetic; shapes and value combinations are unbounded.",
 MA, [("elementwise operator templates and broadcasting", "include/nuSQuIDS/marray.h")],
 "Differential testing against a naive broadcasting evaluator. "+GEN)
prop("P04", "Sums over arrays add each element exactly once",
 "The sum of an array is the sum of all its elements, and the sum along a dimension is the array, with that dimension removed or kept as one, whose elements are the sums over it. A dimension the array does not have is refused with an exception.",
 ["inputs"], "For all shapes of rank 1 to 5 including empty ones, all dimensions and values.",
 "No existing test sums an array.",
 MA, [("sum()", "include/nuSQuIDS/marray.h")],
 "Naive sums of exactly representable values. "+GEN)
prop("P05", "Arrays neither leak nor misuse elements, even when allocation or copying fails",
 "Throughout any history of array operations every element is constructed once and destroyed once, every memory block is given back once to the allocator it came from and with its size, and nothing is read or assigned before it is constructed or after it is destroyed. If an allocation or an element's construction or copying fails in the middle of an operation, the failure is reported, all arrays remain usable and consistent, and nothing leaks.",
 ["histories", "fault_sequences"], "For all histories of array operations with a failure injected at any allocation or any element construction, copy or move.",
 "Tests never make an allocation or copy fail, and the elements they use cannot tell whether they were constructed.",
 MA, [("allocation guards and uninitialised construction", "include/nuSQuIDS/marray.h")],
 "Fault injection at generated points into random histories with self-registering elements and tracking allocators. "+GEN)
prop("P06", "Aligned memory is aligned, private and fully returned",
 "A block obtained with a requested power-of-two alignment starts at a multiple of it, has the full size asked for, overlaps no other block, keeps its contents until released, and gives back exactly the memory that was taken for it. A request too large to represent is refused rather than wrapped around, and an array using such memory keeps its alignment through copies, moves and resizing.",
 ["histories", "inputs"], "For all histories of allocations and releases, all sizes, all alignments up to 2^16 and all positions of the underlying memory.",
 "No existing test asks for an alignment other than the default one or examines where blocks lie.",
 ["include/nuSQuIDS/aligned_alloc.h"], [("aligned_allocator::allocate/deallocate/max_size", "include/nuSQuIDS/aligned_alloc.h")],
 "Random histories with every byte written and re-read and the underlying memory tracked, placed at generated offsets. "+GEN)
TO = ["src/tools.cpp", "include/nuSQuIDS/tools.h"]
prop("P07", "Text tables survive being written and read",
 "A table of finite numbers written to a text file and read back has the same shape and the same values to fifteen significant digits. Reading takes exactly the numbers of every line, whatever the spacing, and passes over lines without numbers. Files that cannot be opened or created, and files whose rows differ in length, are refused with an exception.",
 ["inputs"], "For all tables of finite numbers and all text layouts of a rectangular or ragged table.",
 "No existing test writes or reads a table whose contents it checks.",
 TO, [("quickread, quickwrite, fexists", "src/tools.cpp")],
 "Round trips and generated files of known contents. "+GEN)
prop("P08", "Sample spaces have the right size, exact ends and equal steps",
 "A linear or logarithmic sample space has exactly the number of samples asked for, begins and ends exactly at the ends given, and its samples are equally spaced (in value or in logarithm) and in order. Asking for no samples is refused with an exception.",
 ["inputs"], "For all ends (positive for logarithmic spaces, in either order) and all numbers of samples.",
 "The tests that use sample spaces only compare physics output for a handful of fixed ranges.",
 TO, [("linspace, logspace", "src/tools.cpp")],
 "Comparison with long-double arithmetic sample by sample. "+GEN)
prop("P09", "Complex matrix helpers compute what they name",
 "Conjugation conjugates every element of a matrix of any shape; the two changes of basis compute U M U-dagger and U-dagger M U, leave the transformation itself unchanged, and undo each other for a unitary transformation. Printing shows every element in its place.",
 ["inputs"], "For all square matrices up to 7x7, general, Hermitian and unitary, and all rectangular matrices up to 8x8.",
 "No stable test touches the matrix helpers.",
 TO, [("gsl_matrix_complex_conjugate, change_basis_UMUC/UCMU", "src/tools.cpp")],
 "Comparison with naive products. "+GEN)
prop("P10", "One-dimensional splines interpolate and follow Akima's definition",
 "A spline through given points passes through each of them, is the cubic with Akima's slopes between neighbouring points (keeping corners where the data have them), and continues its first and last pieces outside the range. The knots, ordinates and slopes it reports are those of the data, also after it is given new data, copied or moved. Fewer than three points, unordered or repeated abscissas and data of unequal length are refused with an exception.",
 ["inputs", "histories"], "For all sets of 3 to 43 points, regular or not, smooth, random, stepped or cornered, and all points of evaluation.",
 "The stable tests evaluate one three-dimensional table; no spline is compared with its definition.",
 TO, [("AkimaSpline", "src/tools.cpp")],
 "Comparison with a long-double reference that carries rounding bounds. "+GEN)
prop("P11", "Two-dimensional interpolation reproduces its table and joins it smoothly",
 "An interpolator over a rectangular grid returns the tabulated value at every grid point and elsewhere the bicubic surface whose slopes and cross slopes at the grid points are those of the one-dimensional splines along the grid lines. It reports the data it was given; an interpolator without data is zero everywhere. Data that do not match the coordinates, or coordinates that are unordered, repeated or too few, are refused with an exception.",
 ["inputs"], "For all grids of 3 to 12 points along each axis, regular or not, all data and all points within the grid.",
 "The stable tests do not touch the two-dimensional interpolator.",
 TO, [("BiCubicInterpolator", "src/tools.cpp")],
 "Comparison with a long-double tensor-product reference. "+GEN)
prop("P12", "Three-dimensional interpolation reproduces its table and joins it smoothly",
 "An interpolator over a three-dimensional grid returns the tabulated value at every grid point and elsewhere the tricubic function whose first, mixed second and mixed third slopes at the grid points are those of the one-dimensional splines along the grid lines. Data that do not match the coordinates, or unordered or repeated coordinates, are refused with an exception.",
 ["inputs"], "For all grids of 3 to 8 points along each axis, all data and all points within the grid.",
 "The stable test interpolates one fixed function on one fixed grid and compares with loose tolerance.",
 TO, [("TriCubicInterpolator", "src/tools.cpp")],
 "Comparison with a long-double tensor-product reference. "+GEN)
prop("P13", "Arrays and attributes stored in HDF5 files come back unchanged",
 "An array written to an HDF5 file, at any compression level, comes back with the same extents and values, and an attribute comes back with its value, including after the file is closed and reopened. Whether an object exists is answered correctly, also for nested names and links. Missing objects, names in use, and arrays of another rank or attributes of another type are refused with an exception, leaving the destination as it was.",
 ["inputs"], "For all arrays of rank 1 to 4 of the supported element types, empty ones and ones of several chunks included, and all attribute values.",
 "No stable test uses HDF5; the repository's own HDF5 tests store a single state.",
 TO, [("writeArrayH5, readArrayH5, addH5Attribute, readH5Attribute, h5ObjectExists", "include/nuSQuIDS/tools.h")],
 "Round trips through real HDF5 files in memory and on disk. "+GEN)
prop("P14", "HDF5 objects are released exactly once, on success and on failure",
 "An owner of an HDF5 object or file releases it exactly once when it ends, and moving ownership neither releases early nor twice nor loses the object. No read or write of arrays and attributes leaves an HDF5 object open, whether it succeeds or is refused. An invalid object is refused with an exception that says what failed.",
 ["histories"], "For all histories of creating, moving and ending owners, and of successful and refused reads and writes.",
 "Tests do not look at the number of open objects and never provoke a failure.",
 TO, [("H5Handle, H5File and the HDF5 helpers", "include/nuSQuIDS/tools.h")],
 "Random histories against a model of ownership and the HDF5 library's own count of open objects. "+GEN)
prop("P15", "Adaptive quadrature meets its tolerance or says that it did not",
 "The adaptive integral of a smooth function agrees with the true integral within the requested relative tolerance (up to the safety factor of a heuristic error estimate) and is reported as within tolerance; polynomials up to degree nine are exact. Reversing the limits changes only the sign, end point values supplied or reported belong to the end points in the caller's order and supplying them changes nothing but the number of evaluations, and the function is never evaluated outside the interval. Impossible tolerances and intervals without room for the nodes are refused with an exception.",
 ["inputs"], "For all sums of polynomials, exponentials, waves and peaks, and functions with one kink, jump or root singularity, on all intervals and tolerances.",
 "No existing test calls the adaptive quadrature directly.",
 ["include/nuSQuIDS/AdaptiveQuad.h"], [("AdaptiveQuad::integrate", "include/nuSQuIDS/AdaptiveQuad.h")],
 "Functions with closed-form integrals and metamorphic relations. The stopping rule is heuristic, so accuracy is compared with a generous factor. "+GEN)
prop("P16", "One-dimensional integrals have the accuracy asked for",
 "The integral of a smooth function between two limits agrees with its true value within the requested relative accuracy, whichever way the workspace is supplied and whether or not it was used before. Reversed limits change the sign, equal limits give zero, and integrals over adjoining intervals add up.",
 ["inputs", "histories"], "For all sums of smooth terms of one sign, all intervals and the accuracies from 1e-3 to 1e-9.",
 "The stable test integrates x squared once.",
 ["include/nuSQuIDS/tools.h"], [("integrate, IntegrateWorkspace", "include/nuSQuIDS/tools.h")],
 "Functions with closed-form integrals. "+GEN)
prop("P17", "Tau decay spectra are the published, normalised distributions",
 "For every decay channel the spectrum of the daughter neutrino's energy fraction is the published formula for polarised taus: it depends only on the fraction, is nowhere negative, vanishes beyond the kinematic limit and integrates to one. The total spectrum is the sum of the channels weighted with their branching ratios, which add up to one.",
 ["inputs"], "For all tau energies and all energy fractions from zero to one.",
 "No stable test evaluates a decay spectrum.",
 ["src/taudecay.cpp", "include/nuSQuIDS/taudecay.h"], [("TauDecayToLepton/Pion/Rho/A1/Hadron/All, SetParameters", "src/taudecay.cpp")],
 "Comparison with the published formulas in long double and numerical normalisation. "+GEN)
prop("P18", "Tau decay tables hold the spectra at their energy nodes",
 "After a table is set up for a list of energies (also a second time, or as a copy), every entry for a parent and a daughter energy not above it is the corresponding spectrum divided by the parent's energy in GeV, in its neutrino and its lepton-energy form, for all channels and for the leptonic one, alike for neutrinos and antineutrinos. An energy index beyond the list is refused with an exception.",
 ["inputs", "histories"], "For all increasing lists of 1 to 60 energies and all pairs of nodes.",
 "No stable test sets up the tables.",
 ["src/taudecay.cpp", "include/nuSQuIDS/taudecay.h"], [("TauDecaySpectra::Init, dNdEnu_*, dNdEle_*", "src/taudecay.cpp")],
 "Comparison of table entries with the formulas in long double. "+GEN)
prop("P19", "Every task given to a thread pool runs exactly once and its outcome arrives",
 "Every task accepted by a thread pool runs exactly once, and its result or exception, together with everything it wrote, reaches whoever holds its future, also when the pool is shut down with tasks still waiting. As many tasks as there are threads run at the same time and no more, a single thread keeps the order given, and no schedule makes the pool hang. A pool being shut down refuses new tasks with an exception.",
 ["schedules", "histories"], "For all schedules of 1 to 8 threads and 1 to 4 producers, with throwing tasks and tasks that give tasks.",
 "The pool is only exercised by one example through one schedule; races show in few interleavings.",
 ["include/nuSQuIDS/ThreadPool.h"], [("ThreadPool", "include/nuSQuIDS/ThreadPool.h")],
 "Generated workloads with perturbed timing under address and thread sanitizers; explores the schedules the operating system produces, not all of them. Trusts the C++ library's futures.",
 "property-based stress testing with perturbed schedules under sanitizers")
prop("P20", "Data tables are looked for where the environment, else the installation, says",
 "The directory for data tables is the value of the environment variable meant for it whenever that is set, otherwise the installed directory in an installed library and the source directory in one that is not. The answer always reflects the environment at the time of asking.",
 ["histories", "configurations"], "For all histories of setting and unsetting environment variables, in installed and uninstalled configurations.",
 "Tests run in one environment and one configuration.",
 ["src/resources.cpp"], [("getResourcePath", "src/resources.cpp")],
 "Random histories of the environment in both configurations. "+GEN)
BO = ["src/body.cpp", "include/nuSQuIDS/body.h"]
XS = ["src/xsections.cpp", "include/nuSQuIDS/xsections.h"]
SHIM = " The SQuIDS library is not installed here, so the code is compiled against a stand-in for it (shim/)."
prop("P21", "Tracks are the segments of trajectory they were asked for",
 "A track begins and ends where its maker says (for the Earth with its atmosphere and the Sun seen from outside: at the ends of the chord fixed by zenith angle or cosine, radius and height, or by the impact parameter), starts at its initial position unless another was asked for, and reports these and its other parameters. Moving along the track changes only the position, reversing it only exchanges its ends, and changing a copy leaves the original alone. A track made by a body uses that body's own radius and atmosphere height.",
 ["inputs", "histories"], "For all kinds of tracks, all geometries (including vertical, horizontal and grazing ones) and all histories of moves, reversals and copies.",
 "The code needs a library that is absent from the build here, so the stable tests never make a track; the repository's own examples use a few zenith angles with the Earth's default size.",
 BO, [("Track classes, MakeTrack, MakeWithCosine", "src/body.cpp"), ("Track, SetX, ReverseTrack", "include/nuSQuIDS/body.h")],
 "Comparison with long-double geometry over random histories. "+GEN+SHIM)
prop("P22", "Along every trajectory, matter is what the body's model says at that place",
 "At each point of a track, density and electron fraction are those of the body's model, interpolated at the point's distance from the centre (or position along the body): inside the first and beyond the last radius of the model the first and last values hold (for the Sun, no density outside it), the atmosphere thins out exponentially with height, variable layers have nothing outside them, and uniform bodies are uniform. This is so for models read from files, passed as arrays, or shipped. Models that are not proper tables, and chords that do not exist, are refused with an exception.",
 ["inputs"], "For all models of 3 or more radii, all trajectories, and all points of each.",
 "No stable test makes a body; the repository's examples look at the shipped model only, through oscillation results.",
 BO, [("Body classes: density, ye, constructors", "src/body.cpp")],
 "Comparison with the interpolation of the model at a distance computed in long double, with rounding bounds around jumps. "+GEN+SHIM)
prop("P23", "Bodies and tracks stored in HDF5 files come back the same",
 "A body or track stored in an HDF5 group, and read back under its stored name, is of the same kind and has the same parameters, position, ends (also when reversed) and matter along it; so does one of a kind that the user registered. Unknown names are refused with an exception, as are groups without the data, and no HDF5 object stays open after either.",
 ["inputs"], "For all kinds of bodies and tracks, with all their parameters.",
 "No stable test stores a body; the repository's tests store one kind.",
 BO, [("Serialize, Deserialize, GetBodyDeserializer, GetTrackDeserializer", "src/body.cpp"), ("NUSQUIDS_REGISTER_BODY", "include/nuSQuIDS/body.h")],
 "Round trips through HDF5 files in memory and the library's count of open objects. "+GEN+SHIM)
prop("P24", "Cross sections tabulated in both energies are interpolated as tabulated",
 "Total and differential cross sections of the tables of the first kind (NeutrinoDISCrossSectionsFromTables_V1) agree at the tabulated energies with the table for the flavor, type and current asked for and interpolate linearly in between; they vanish for outgoing energies above the incoming one and for sterile neutrinos. Below the table the total is proportional to the energy (negligible below 10 GeV for tables that begin above), and the differential negligible; above it both are refused with an exception. Writing a table to text or HDF5 and reading it back gives the same cross sections, and missing or inconsistent files are refused.",
 ["inputs"], "For all tables of 2 to 12 equally (logarithmically) spaced energies, all flavors, types and currents and all energies.",
 "No stable test reads a cross section; the repository's tests do not read this kind of table at all.",
 XS, [("NeutrinoDISCrossSectionsFromTables_V1", "src/xsections.cpp")],
 "Comparison with bilinear interpolation in long double over generated tables, and round trips. "+GEN+SHIM)
prop("P25", "Cross sections tabulated in energy and fraction are interpolated as tabulated",
 "Total and differential cross sections of the tables of the second kind (NeutrinoDISCrossSectionsFromTables) are the interpolation (in logarithms) of the tables for the flavor, type and current asked for, whether read from text or HDF5, with one table for all flavors or one each, with as many energy fractions as energies or not, and alike from a copy; below the table the total is proportional to the energy (negligible below 10 GeV for tables that begin above) and the differential negligible, extrapolating the outgoing energy never gains, sterile neutrinos do not interact, and energies above the table are refused with an exception. Writing a table to text or HDF5 and reading it back gives the same cross sections; missing, malformed or inconsistent files are refused, and no HDF5 object stays open.",
 ["inputs"], "For all tables of one or three flavors and 3 or more energies and fractions, all flavors, types and currents and all energies.",
 "No stable test reads a cross section; the repository's tests read one shipped table.",
 XS, [("NeutrinoDISCrossSectionsFromTables", "src/xsections.cpp")],
 "Comparison with interpolators over generated tables, and round trips. The interpolators themselves are decided by P10 and P11. "+GEN+SHIM)
prop("P26", "The library of cross sections holds what was put in, and the defaults are right",
 "The cross section of the Glashow resonance is the published one for electron antineutrinos in its channel, and zero for every other flavor, type and current; the null cross section vanishes. A library has exactly the targets added to it, returns the cross sections added, refuses to redefine a target and copies independently. The default library has proton and neutron tables if they are available, otherwise those for an isoscalar nucleon, and always the resonance on electrons.",
 ["inputs", "histories"], "For all energies, flavors, types and currents, and all histories of additions and copies.",
 "No stable test builds a library or evaluates the resonance.",
 XS, [("GlashowResonanceCrossSection, CrossSectionLibrary, loadDefaultCrossSections", "src/xsections.cpp")],
 "Comparison with the published formula in long double and a map as the model of the library. "+GEN+SHIM)
prop("P27", "Averages of cross sections over energy bins are averages",
 "The average of a total or differential cross section over an energy bin is its mean over the bin, for the flavor, type and current asked for, computed from energies within the bin and the incoming energy given; for differential ones the ends may be in either order, and over a bin of no width it is the value there.",
 ["inputs"], "For all smooth cross sections and bins up to a factor of 100 wide, also through the tables' own averages.",
 "No stable test averages a cross section.",
 XS, [("AverageTotalCrossSection, AverageSingleDifferentialCrossSection", "src/xsections.cpp")],
 "Cross sections with closed-form integrals; the stopping rule is heuristic, so within a generous tolerance. "+GEN+SHIM)
NU = ["src/nuSQuIDS.cpp", "include/nuSQuIDS/nuSQuIDS.h"]
prop("P28", "Vacuum and constant matter: evolution is the exact solution",
 "Evolving through vacuum or matter of constant density gives, at every energy node and for every flavor and mass state, what the exact exponential of the Hamiltonian (mixing, mass differences, matter potentials of the right sign for neutrinos and antineutrinos) gives, within the integration precision asked for. This is so for any mixing parameters, number of flavors, initial state, starting position and direction, any sequence of bodies, in either basis, with the fast path for constant density on or off or changed in between. The flavors always add up to the initial flux, and with oscillations off they do not change.",
 ["inputs", "histories"], "For 3 to 6 flavors, all mixing parameters, neutrinos and antineutrinos, single or several energies, up to three bodies in sequence.",
 "The stable tests cannot evolve anything since the SQuIDS library is absent; the repository's own tests compare a few fixed configurations.",
 NU, [("nuSQUIDS::EvolveState, PreDerive, EvolveProjectors, H0, HI, EvalFlavor, EvalMass", "src/nuSQuIDS.cpp")],
 "Differential comparison with plain matrix exponentials. "+GEN+SHIM)
prop("P29", "Varying matter: evolution agrees with slices, composes and can be undone",
 "Evolving along a track through matter that varies gives what many short slices of constant matter, taken along the same trajectory in order, give. Evolving a track in consecutive pieces gives the same as evolving it whole, and going back along the reversed tracks restores the initial state. The low-pass filter removes only the matter terms between states oscillating faster than its cutoff, reducing those in its ramp in proportion.",
 ["inputs", "histories"], "For bodies of the user's own and the layered, Earth, atmosphere and Sun bodies, 3 or 4 flavors, one or several energies.",
 "The stable tests cannot evolve anything; the repository's own tests compare a few fixed configurations in the Earth.",
 NU, [("nuSQUIDS::PreDerive, HI, EvolveState, Set_EvolLowPassCutoff", "src/nuSQuIDS.cpp")],
 "Differential comparison with fourth-order slices and metamorphic relations between evolutions. "+GEN+SHIM)
prop("P30", "Absorption, regeneration and the Glashow resonance follow the cascade equations",
 "With interactions on, the flux at each energy falls by what charged and neutral currents (and the Glashow resonance, for electron antineutrinos) take away, at the density and composition met, and grows by what neutral currents, tau decays and the resonance at the higher energies give, while the coherence of the flavors that interact is damped at their mean rate; sterile neutrinos do not interact. This holds for the cross sections last given and the options last chosen, in whichever order, with or without oscillations. What cannot be computed (no nucleons or electrons to hit, unusable cross sections, tau regeneration without both neutrinos and antineutrinos) is refused with an exception, and again on a second try.",
 ["inputs", "histories"], "For 3 to 5 flavors, up to 6 energies, all cross sections, uniform and varying matter, all combinations and orders of options.",
 "The stable tests cannot evolve anything; the repository's own tests compare sums for a few fixed configurations.",
 NU, [("UpdateInteractions, GammaRho, InteractionsRho, GetNeutrinoInteraction, InitializeInteractionVectors", "src/nuSQuIDS.cpp")],
 "Differential comparison with a Runge-Kutta solution of the cascade equations in plain matrices, and closed-form attenuation. "+GEN+SHIM)
prop("P31", "What bodies inject along the way is added to the flux, no more and no less",
 "With sources on, the flux that a body injects at each place of the track, for each energy, neutrino or antineutrino and flavor (sterile ones included), is added to the flux evolved, also while neutrinos oscillate, interact or go backwards, and through matter of constant density. A body that injects nothing, there or at all, adds nothing whatever the bodies before it injected, and with sources off no body is asked. Bodies are asked with the container of the right extents, at the place reached, on behalf of the object that evolves.",
 ["inputs", "histories"], "For 3 to 5 flavors, single and several energies, up to three bodies in sequence with sources switched on and off, all mixing parameters and interactions.",
 "The stable tests cannot evolve anything; the repository's own test has one steady source.",
 NU, [("Set_NeutrinoSources, PreDerive, InteractionsRho, UpdateInteractions", "src/nuSQuIDS.cpp"), ("injected_neutrino_flux", "include/nuSQuIDS/body.h")],
 "Differential comparison with a Runge-Kutta solution of the evolution with sources in plain matrices. "+GEN+SHIM)
prop("P32", "The positivity constraint removes negative fluxes and does nothing else",
 "With the positivity constraint on, every flavor whose flux has become negative is set to zero at multiples of the step from the start of the track and at its end, for each energy and for neutrinos and antineutrinos alike, and nothing else changes: in between, the flux evolves as without the constraint, over the length of the track, whatever its start, direction and length. A step that is not positive is refused with an exception.",
 ["inputs", "histories"], "For 3 to 5 flavors, single and several energies, all initial states including negative ones, steps from a fiftieth of the track to more than it, oscillations, interactions and sources, the constraint switched on and off between bodies.",
 "The stable tests cannot evolve anything; the repository's own tests do not use the constraint.",
 NU, [("EvolveState, PositivizeFlavors, Set_PositivityConstrain, Set_PositivityConstrainStep", "src/nuSQuIDS.cpp")],
 "Differential comparison with a Runge-Kutta solution in plain matrices clipped at the same places. "+GEN+SHIM)
prop("P33", "A state written to a file and read back is the same and goes on the same way",
 "A state written to an HDF5 file and read back, by a new object or by one that was used for something else, has the same energies, parameters, body, track, clock, fluxes at and between the energies, user data and interaction tables, and evolves on as the original does; so with the tables stored elsewhere in the file or given by the caller. Files that are missing, not HDF5, incomplete, or hold tables of other sizes are refused with an exception, and the object that read them evolves nothing until it is given a state again. Writing without overwriting leaves everything in the file as it was, no state is written that does not exist, and no HDF5 object stays open.",
 ["inputs", "histories"], "For 3 to 5 flavors, single and up to 6 energies, either basis, before any evolution and after one or two, with and without interactions, several states in one file.",
 "The stable tests cannot make an object to be written; the repository's own tests compare one state after one evolution.",
 NU, [("WriteStateHDF5, ReadStateHDF5, ReadStateHDF5Internal", "src/nuSQuIDS.cpp")],
 "Round trips through files, compared with the original at once and after one more evolution of both; counts of open HDF5 objects; files with parts removed. "+GEN+SHIM)
prop("P34", "Moved objects go on as if they had not been; interaction tables are values",
 "An object that is moved at any point of its life (by construction, by assignment over an object of any size and state, through containers and swaps) reports and evolves exactly what it would have without, with all its options, and the object left behind can be destroyed and assigned to. Interaction structures are values: copies hold the same targets and tables, do not change with the original, compare equal exactly when they hold the same, and keep their alignment.",
 ["histories"], "For all options, 3 to 5 flavors, single and several energies, with and without interactions and sources, any number of moves in up to three legs.",
 "The stable tests cannot make an object; the repository's own tests move objects before anything has happened to them.",
 NU, [("nuSQUIDS move constructor and assignment", "src/nuSQuIDS.cpp"), ("InteractionStructure", "include/nuSQuIDS/nuSQuIDS.h"), ("GetHamiltonian", "src/nuSQuIDS.cpp")],
 "Two objects with the same history, one of them moved, compared bit for bit; interaction structures next to plain vectors. "+GEN+SHIM)
prop("P35", "Evaluations tell the content of the interpolated state, within its range",
 "The flavor and mass content reported at an energy between two nodes is that of the state interpolated linearly in energy (before the vacuum phases of that energy are applied), at a node that of the node's state, for neutrinos and antineutrinos, in either basis, with or without oscillations; with a scale for averaging, the interference of mass states whose phase is larger is left out. Energies, flavors, equations, nodes and vectors of flags out of range, and calls for the other energy mode, are refused with an exception.",
 ["inputs", "histories"], "For 3 to 5 flavors, single and up to 6 energies, all energies in the range, indices and scales, after up to two evolutions.",
 "The stable tests cannot evaluate anything; the repository's own tests evaluate at the nodes for the most part.",
 NU, [("EvalFlavor, EvalMass, EvalFlavorAtNode, EvalMassAtNode, GetFlavorProj, GetMassProj", "src/nuSQuIDS.cpp")],
 "Comparison with plain matrices made from the states stored at the nodes, which P28 to P32 decide. "+GEN+SHIM)
prop("P36", "An atmospheric ensemble is one object per zenith, on any number of threads",
 "An ensemble given any history of options (for all zeniths or one), Earth models, moves, initial states and evolutions holds at each zenith exactly the state of one object given the same history alone, whatever the number of threads. Its evaluations interpolate those states in energy and then in the cosine of the zenith, with the phases of the path at that zenith (or of one whose production height lies within 15 km of it); an error at any zenith is reported after all have ended, and leaves the ensemble usable. Zeniths, energies, flavors, equations and nodes out of range, arrays of wrong sizes, and objects without a state or moved from are refused with an exception.",
 ["inputs", "histories", "schedules"], "For up to 4 zeniths and 4 energies, 3 to 5 flavors, all options, 1 to 6 threads, with and without interactions; schedules as the operating system makes them, also under ThreadSanitizer.",
 "The stable tests cannot make an ensemble; the repository's own tests compare a few evaluations.",
 NU, [("nuSQUIDSAtm: EvolveState, EvalFlavor, Set_initial_state, Set_EarthModel, moves", "include/nuSQuIDS/nuSQuIDS.h"), ("ThreadPool", "include/nuSQuIDS/ThreadPool.h")],
 "A model of one object per zenith compared bit for bit, and plain matrices for the evaluations. "+GEN+SHIM)
prop("P37", "An ensemble written to a file and read back is the same and goes on the same way",
 "An atmospheric ensemble written to an HDF5 file (new, over another, or beside another state) and read back, by a new object or by one used for something else or moved from, has the same nodes, parameters, Earth model, tracks, clocks and evaluations, and evolves on as the original does. Files that are missing, not HDF5, incomplete or of wrong shape are refused with an exception, and the object that read them does nothing until it is given something else. Without overwriting no file and nothing in it is replaced, and no HDF5 object stays open.",
 ["inputs", "histories"], "For up to 4 zeniths and 4 energies, 3 to 5 flavors, after zero to two evolutions, with and without interactions.",
 "The stable tests cannot make an ensemble; the repository's own tests compare one file.",
 NU, [("nuSQUIDSAtm: WriteStateHDF5, ReadStateHDF5", "include/nuSQuIDS/nuSQuIDS.h")],
 "Round trips through files, compared with the original at once and after one more evolution of both; counts of open HDF5 objects; files with parts removed or spoilt. "+GEN+SHIM)
prop("P38", "Parameters and states are what was set; nonsense is refused without a trace",
 "Every mixing angle, mass difference, phase, option, body, track and energy reads back as it was last set, the others stay as they were (the published values before anything is set), and a change of parameters or energy makes the state invalid until it is set again. Evolving, setting a state or making an object without what it needs, or with sizes, bases, indices, energies or zeniths that make no sense (too few or too many flavors, nothing at all, wrong order, null pointers), is refused with an exception. What was refused changes nothing: the object reports and evolves as if it had not been asked, and the Hamiltonian it returns is at all times that of the parameters, energies and place set last.",
 ["inputs", "histories"], "For 3 to 6 flavors, single and several energies, all kinds of neutrinos, up to 16 steps; objects without arguments in memory with any former content.",
 "The stable tests cannot make an object; the repository's own tests make no mistakes.",
 NU, [("Set_MixingAngle, Set_SquareMassDifference, Set_CPPhase, Set_Body, Set_Track, Set_E, Set_initial_state, EvolveState, constructors", "src/nuSQuIDS.cpp"), ("nuSQUIDSAtm constructor", "include/nuSQuIDS/nuSQuIDS.h")],
 "Stateful generation against a model of what was set, with the evolution in plain matrices. "+GEN+SHIM)
prop("P39", "Files of earlier versions are read as what they hold, or refused",
 "A file in the layout of an earlier version (bodies and tracks as lists of parameters with the body's number, cross sections for a single isoscalar target, one table of tau decays for neutrinos and antineutrinos, options not recorded) is read as the state, parameters, body, track, position, clock and tables it holds, keeps the options of the reading object where it records none, and evolves on like the original. A file with an unknown body, with too few parameters, without its body or track, with tables of another version's layout, or from a later version is refused with an exception, and never ends the program.",
 ["inputs", "histories"], "For all seven kinds of body, forward and reversed tracks, 3 to 5 flavors, single and up to 6 energies, before any evolution and after one or two, new and used reading objects.",
 "No file of an earlier version is among the stable tests or the repository's own.",
 NU, [("ReadStateHDF5, ReadStateHDF5Internal", "src/nuSQuIDS.cpp"), ("SetBodyTrack", "src/nuSQuIDS.cpp"), ("GetBodyParams, GetTrackParams", "include/nuSQuIDS/body.h")],
 "New files rewritten in the earlier layouts and read back, compared with the object that was written, at once and after one more evolution; files made senseless. "+GEN+SHIM)
prop("P40", "Solar fluxes and survival probabilities are those of the tables and parameters",
 "The solar model's fluxes and densities are, from the center to the surface, those of its tables interpolated linearly in radius and energy, and zero outside of each spectrum; radii outside of the Sun and densities asked for as fluxes are refused with an exception. The survival probability at an energy and radius is the adiabatic one (the electron content of each matter state at production times that of the vacuum state at the same place in the ordering of levels) for the mixing parameters set last, any number of flavors, phases and signs of the mass differences. The mean probability is its average over the region of production weighted with the fluxes at that energy, lines being taken where they are.",
 ["inputs", "histories"], "For generated tables of 2 to 40 rows and the shipped ones, 3 to 6 flavors, energies of 3 keV to 200 MeV, parameters changed before and after states and evaluations.",
 "Neither the stable tests nor the repository's own compile the solar code.",
 ["resources/user_contributions/SolarTransitions/SolarModel.cpp", "resources/user_contributions/SolarTransitions/SolarModel.h", "resources/user_contributions/SolarTransitions/SolarProbabilities.cpp", "resources/user_contributions/SolarTransitions/SolarProbabilities.h", "src/nuSQuIDS.cpp"], [("splineinit, nuFlux, eDensity, DMDensity", "resources/user_contributions/SolarTransitions/SolarModel.cpp"), ("SolarOscillationProbability, Hamiltonian, PeeSquare, RadialIntegratedFluxes", "resources/user_contributions/SolarTransitions/SolarProbabilities.cpp")],
 "Tables written and read back; eigenvectors from Jacobi rotations of plain matrices; Gauss integrals. "+GEN+SHIM)
prop("P41", "What is done from Python is what is done from C++",
 "Arrays of numbers of up to four dimensions reach the library with the values, shape and order that Python sees, whatever their type, layout, byte order or alignment, are not changed or leaked, and come back as arrays of doubles; sequences become vectors; arguments of other kinds or dimensions are refused with an exception. An object, ensemble, body, track, cross section, table of tau decays or vector made and used in Python reports, after the same history of settings, bodies, states and evolutions, bit for bit what one made in C++ reports, refuses what it refuses, and reads the files that it writes and the other way around. Units, names and enumerations mean the same on both sides.",
 ["inputs", "histories"], "For arrays of 14 types in 12 layouts with extents 0 to 4, all overloads of constructors and methods that Python can call, all seven kinds of body, histories of up to nine steps, ensembles of up to three zeniths.",
 "No test loads the Python module, and what depends on the memory behind an array or on which overload is taken shows only for some arguments.",
 ["resources/python/src/nuSQUIDSpy.cpp", "resources/python/src/nuSQUIDSpy.h", "resources/python/inc/container_conversions.h"], [("marray_from_python, marray_to_numpyarray, RegisterBasicNuSQuIDSPythonBindings, RegisterBasicAtmNuSQuIDSPythonBindings", "resources/python/src/nuSQUIDSpy.h"), ("module nuSQuIDS, ListToVectorBool, EvalFlavor wrappers", "resources/python/src/nuSQUIDSpy.cpp"), ("from_python_sequence", "resources/python/inc/container_conversions.h")],
 "The interpreter runs inside the harness; everything is done twice, through the module and in C++, and compared bit for bit. Not covered, as Python cannot call them: GetTransformationMatrix, the list of objects of an ensemble, methods that return a mask through an argument. "+GEN+SHIM)
