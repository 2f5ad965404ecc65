#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "A dictionary behaves as an exact key-to-value map",
  "Inserting a key makes it present with exactly the inserted value (replacing any earlier value), removing a key makes exactly that key absent, and neither operation changes any other key. The key list names every present key exactly once, emptiness and membership agree with the key set, and copies are independent of the original. A dictionary built from a list or a map contains exactly the given keys (the first entry of a repeated key wins).",
  ["inputs", "histories"], "all dictionaries (any keys, any stored types, any size), all keys and values, hence all operation sequences",
  "The tests insert three fixed keys and look at one each; they never check the other keys, removal of absent keys, overwriting with another type, or key lists of arbitrary dictionaries.",
  ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp"],
  [("insert/remove/contains/keys/empty/getMap and constructors", "src/core/dictionary.cpp")],
  [("data_", "the key/value map", "include/NeoFOAM/core/dictionary.hpp")])

p("C02", "Typed dictionary access is exact, type-checked and leaves no trace on error",
  "Reading a present key with the stored type yields exactly the stored value, by a reference through which writes are seen by later reads; reading a missing key fails with an out-of-range error and reading with another type fails with a bad-cast error. A failing read never changes the dictionary, and in particular never creates the key. A key is reported as a sub-dictionary exactly when it is present and holds a dictionary, and sub-dictionary access then refers to that very dictionary.",
  ["inputs", "histories"], "all dictionaries, all keys, all requested and stored types, const and non-const access",
  "Tests read a handful of int/double/string entries and one missing key; they cannot cover every stored/requested type pair nor check that a failing access left all other state alone.",
  ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp"],
  [("operator[], get<T>, subDict, isDict", "src/core/dictionary.cpp, include/NeoFOAM/core/dictionary.hpp")])

p("C03", "Documents always carry an identifier, unique unless supplied, and are validated",
  "Every constructed document has an identifier entry; when the caller supplies one it is kept unchanged, otherwise a fresh one is generated that no other generated document has. Constructing a document from a dictionary keeps every other entry unchanged and succeeds exactly when the validator accepts the completed document; otherwise a runtime error is raised. Explicit validation returns true or raises in the same way, and reading the identifier or the name returns exactly the stored entry.",
  ["inputs", "histories", "schedules"], "all dictionaries and validators, all sequences of document constructions (also from several threads)",
  "Tests construct a few documents and one accepting/rejecting validator; uniqueness over every history and preservation of every entry are not sampled.",
  ["include/NeoFOAM/core/database/document.hpp", "src/core/database/document.cpp"],
  [("constructors, validate, id, name, identifier counter", "src/core/database/document.cpp")])

p("C04", "A collection finds, lists and returns exactly its documents",
  "Looking up a stored identifier returns that very document and an unknown one raises an out-of-range error. A search returns the identifiers of exactly the documents that satisfy the predicate, each once and each usable for lookup; the sorted key list holds every stored identifier exactly once in ascending order; the size is the number of stored documents. None of these queries changes the collection.",
  ["inputs", "histories"], "all collections (any number of documents), all predicates, all identifiers",
  "Tests use a collection with three fixed documents and one predicate; completeness and absence of duplicates for every collection and predicate cannot be sampled.",
  ["include/NeoFOAM/core/database/collection.hpp"],
  [("CollectionMixin doc/find/size/sortedKeys/name/type/db", "include/NeoFOAM/core/database/collection.hpp")],
  [("docs_", "identifier to document map", "include/NeoFOAM/core/database/collection.hpp")])

p("C05", "A database stores named collections uniquely and never overwrites one",
  "Inserting under a new name stores that collection and returns it; inserting under an existing name leaves the stored collection untouched and returns it. Membership, size and removal agree with the set of names, removal reports whether the name was present and touches no other collection, and looking up an absent name raises an out-of-range error without creating anything. Typed lookup returns the stored collection object only when its type matches and raises a bad-cast error otherwise.",
  ["inputs", "histories"], "all databases, all names and collections, hence all insert/remove/lookup sequences",
  "The tests insert two collections and erase one; duplicate names, absent names and the frame over all other names are not covered.",
  ["include/NeoFOAM/core/database/database.hpp", "src/core/database/database.cpp", "include/NeoFOAM/core/database/collection.hpp"],
  [("Database::insert/contains/remove/at/size, Collection::as", "src/core/database/database.cpp")],
  [("collections_", "name to collection map", "include/NeoFOAM/core/database/database.hpp")])

p("C06", "The type-erased collection handle is a transparent, type-safe forwarder",
  "Every query on a collection handle gives exactly the answer of the wrapped collection, for every wrapped collection type, const or not, and mutations through a returned document are visible through the wrapped object. Recovering the wrapped object succeeds exactly for its own type, yields the same object, and otherwise raises a bad-cast error.",
  ["inputs", "programs"], "all collection types satisfying the interface, all queries, all wrapped states",
  "The tests wrap one concrete type; the guarantee is about every type that provides the interface.",
  ["include/NeoFOAM/core/database/collection.hpp", "src/core/database/collection.cpp"],
  [("Collection, CollectionConcept, CollectionModel", "include/NeoFOAM/core/database/collection.hpp")])

p("C07", "Runtime selection constructs exactly the class registered under the key",
  "Registering a class makes it creatable under its own name and changes no other entry; creating with a registered key runs exactly that class's constructor with exactly the given arguments, and creating with an unregistered key never returns an object but terminates with an error. The entry list and size agree with the registered names, each once, and documentation and schema lookups return those of the named class or raise an out-of-range error.",
  ["inputs", "programs", "histories"], "all registered class sets, all keys, all constructor arguments, all registration orders",
  "The tests register two classes and create them; arbitrary tables, keys and the error path (process termination) are not exercised.",
  ["include/NeoFOAM/core/runtimeSelectionFactory.hpp", "include/NeoFOAM/core/error.hpp"],
  [("RuntimeSelectionFactory::create/entries/doc/schema/size, Register::addSubType, keyExistsOrError, BaseClassDocumentation", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")],
  [("table()/docTable()", "name to creator / documentation maps", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")])

p("C08", "A token list is an exact typed sequence with a forward cursor",
  "Appending adds the token at the end, removing an index deletes exactly that token and keeps the order of the rest, and size and emptiness agree with the sequence. Indexed reads return exactly the token at that index when the type matches and otherwise raise (bad cast for a wrong type, out of range past the end) with the list unchanged; taking the first token returns it and removes it, also for tokens that are themselves lists. Sequential reads return successive tokens starting at the initial cursor position, advance by exactly one on success and not at all on failure, and copies carry tokens and cursor.",
  ["inputs", "histories"], "all token sequences of any length and any token types, all indices, all cursor positions, hence all call sequences",
  "The token list test is not part of the reliably running tests and samples a few three-token lists.",
  ["include/NeoFOAM/core/tokenList.hpp", "src/core/tokenList.cpp"],
  [("insert/remove/get/next/popFront/size/empty/tokens", "include/NeoFOAM/core/tokenList.hpp, src/core/tokenList.cpp")],
  [("data_", "tokens in order", "include/NeoFOAM/core/tokenList.hpp"), ("nextIndex_", "cursor", "include/NeoFOAM/core/tokenList.hpp")])

p("C09", "The stencil cache keeps the first value stored under a key, with typed access",
  "The first value stored under a key is the one every later lookup of that key returns until it is modified through a returned reference; storing again under the same key changes nothing, and storing never affects other keys. Looking up an absent key raises an out-of-range error and a wrong type raises a bad-cast error, in both cases without changing the cache; membership agrees exactly with what was stored.",
  ["inputs", "histories"], "all caches, keys, values and stored/requested types",
  "There is no reliably running test for this cache.",
  ["include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],
  [("insert/get/operator[]/contains", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp")])

p("C10", "Reading an input runs the reader of the alternative actually held, once",
  "For an input that is either a dictionary or a token list, reading constructs the object from exactly the value held, with the reader for that alternative, and returns that object. The caller's input is not modified.",
  ["inputs", "programs"], "both alternatives, all contents, all readable classes",
  "The input test is not among the reliably running tests and samples one dictionary and one list.",
  ["include/NeoFOAM/core/input.hpp"],
  [("read<DataClass>", "include/NeoFOAM/core/input.hpp")])

p("C11", "Field algebra is exact element by element and touches nothing else",
  "Filling, assigning a scalar, mapping, adding, subtracting, multiplying and scaling fields give at every index exactly the operation applied to the operands' elements at that index, for every size, executor and element type, also when an operand is the target itself. Operations restricted to an index range change only that range, binary operators and conversions leave their operands unchanged, and comparison returns true exactly when sizes and all elements agree.",
  ["inputs", "configurations"], "all field sizes and contents, all executors, all element types with the arithmetic used, all sub-ranges",
  "The tests use a few sizes with constant contents and need Kokkos; constant-valued fields cannot see an index mix-up.",
  ["include/NeoFOAM/fields/field.hpp", "include/NeoFOAM/fields/fieldFreeFunctions.hpp"],
  [("fill/setField/map/fieldBinaryOp/add/sub/mul/scalarMul and Field operators", "include/NeoFOAM/fields/fieldFreeFunctions.hpp")])

p("C12", "Fields own their storage: copies are deep, sizes and views stay consistent",
  "Constructing, copying, assigning, moving to another executor and resizing produce a field of the stated size whose elements equal the source's (or the given values), on the requested executor, in storage shared with no other field. Views and ranges of a field cover exactly its elements, resizing preserves the common prefix, and modifying one field never changes another.",
  ["inputs", "configurations", "histories"], "all sizes (also zero) and contents, all source/target executors, all sequences of copies, resizes and writes",
  "Tests copy small constant fields; aliasing and prefix preservation for every size are not observable there.",
  ["include/NeoFOAM/fields/field.hpp"],
  [("constructors, copyToExecutor, operator=, resize, view, range", "include/NeoFOAM/fields/field.hpp")],
  [("data_/size_/exec_", "owned storage, its length, where it lives", "include/NeoFOAM/fields/field.hpp")])

p("C13", "Parallel loops visit every index of the range exactly once on every executor",
  "A parallel loop over a range or over a field calls the kernel exactly once for every index in the half-open range (and for nothing else), on every executor; writing the kernel result to a field writes exactly those elements. A reduction yields exactly the combination of the contributions of those indices (the identity of the reduction for an empty range), whatever the result variable held before, and a scan gives every index the combination of the contributions before it.",
  ["inputs", "configurations", "schedules"], "all ranges, kernels and executors",
  "Tests run a few fixed ranges with constant kernels and need Kokkos.",
  ["include/NeoFOAM/core/parallelAlgorithms.hpp"],
  [("parallelFor/parallelReduce/parallelScan overloads", "include/NeoFOAM/core/parallelAlgorithms.hpp")])

p("C14", "Segmented fields partition their values by prefix-summed interval lengths",
  "Building from interval lengths gives segment boundaries that start at zero and grow by exactly each length in order, and storage of exactly the total length. Every segment view, range and bounds query returns exactly the elements between its two boundaries, so that segments are disjoint and cover all values.",
  ["inputs", "configurations"], "all numbers of segments and all lengths (also zero), all executors",
  "The test uses constant and one increasing length pattern.",
  ["include/NeoFOAM/fields/segmentedField.hpp"],
  [("segmentsFromIntervals, SegmentedFieldView::bounds/range/view, constructors", "include/NeoFOAM/fields/segmentedField.hpp")])

p("C15", "Divergence, gradient, Laplacian and surface integration are conservative",
  "For zeroed output, the explicit divergence, surface integral, gradient and Laplacian give in every cell the operator scaling over the cell volume times the sum of its faces' flux contributions, each internal face contributing its flux once with plus sign to its owner and once with minus sign to its neighbour, and each boundary face once to its cell. The flux of a face is the given face flux times the interpolated value (divergence), the given flux (surface integral), the face area vector times the interpolated value (gradient), or diffusivity times face area times face-normal gradient (Laplacian). Consequently the volume-weighted sum of an unscaled result equals the sum of boundary fluxes alone, on every mesh and every executor.",
  ["inputs", "configurations", "schedules"], "all meshes (owner/neighbour/boundary addressing and geometry), all fluxes and fields, all executors, all iteration orders",
  "Tests use a 10-cell uniform 1D mesh with constant data, where index or sign errors cancel.",
  ["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp", "src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp"],
  [("computeDiv, computeGrad, computeLaplacianExp, surfaceIntegrate", "src/finiteVolume/cellCentred/operators")])

p("C16", "Implicit assembly adds exactly the discretisation coefficients to the system",
  "Assembling the implicit divergence, Laplacian, source and time-derivative terms adds to the matrix and right-hand side exactly the coefficients of the documented discretisation (upwind face fluxes, two-point gradients, boundary fractions, volume-weighted diagonal terms), each scaled by the operator coefficient of the row it goes to, and changes no other entry. Contributions add to whatever the system already holds.",
  ["inputs", "configurations", "schedules"], "all meshes, fluxes, boundary conditions, coefficients and initial systems",
  "Tests check a few row sums on a uniform 1D mesh.",
  ["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp", "src/finiteVolume/cellCentred/operators/sourceTerm.cpp", "src/finiteVolume/cellCentred/operators/ddtOperator.cpp"],
  [("computeDivImp, computeLaplacianImpl, SourceTerm::implicitOperation, DdtOperator::implicitOperation", "src/finiteVolume/cellCentred/operators")])

p("C17", "Face interpolation and face-normal gradients are pointwise exact",
  "Linear interpolation gives each internal face the weighted mean of its two cells, upwind interpolation gives it the value of the cell the flux leaves, and the face-normal gradient gives the neighbour-minus-owner difference times the face coefficient; every boundary face uses its own boundary value. Every face is written exactly once and the inputs are unchanged.",
  ["inputs", "configurations"], "all meshes, fields, weights and fluxes, all executors",
  "Tests interpolate constant fields, for which any index, weight or direction error is invisible.",
  ["src/finiteVolume/cellCentred/interpolation/linear.cpp", "src/finiteVolume/cellCentred/interpolation/upwind.cpp", "src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp"],
  [("computeLinearInterpolation, computeUpwindInterpolation, computeFaceNormalGrad", "src/finiteVolume/cellCentred")])

p("C18", "Boundary conditions set exactly their own patch to the prescribed values",
  "Applying fixed-value, fixed-gradient, extrapolated, calculated or empty conditions sets, for exactly the faces of the condition's own patch, the boundary value (and reference value, gradient and value fraction) that the condition prescribes from its parameters and the adjacent cell. No other patch's data and no cell value changes.",
  ["inputs", "configurations"], "all meshes and patch layouts, all field contents, all parameters, all executors",
  "Tests use single-cell patches at the two ends of a 1D mesh, so ranges of several faces and the frame are never seen.",
  ["include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/fixedValue.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/fixedGradient.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/extrapolated.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/surface/fixedValue.hpp", "include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp"],
  [("setFixedValue, setGradientValue, setExtrapolatedValue, patch range", "include/NeoFOAM/finiteVolume/cellCentred/boundary")])

p("C19", "The sparsity pattern is a valid symmetric matrix layout with correct offsets",
  "For every mesh the pattern has one diagonal entry per cell and two off-diagonal entries per internal face, row starts are the running totals of the row lengths, and every column index is a valid cell. The owner, neighbour and diagonal offsets locate, within the proper row, exactly the entry that couples the two cells of the face (or the cell itself), and no two faces share an entry.",
  ["inputs", "configurations"], "all meshes",
  "The test checks a 10-cell 1D mesh, where every row has at most three entries.",
  ["src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"],
  [("SparsityPattern::update", "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp")])

p("C20", "Sparse matrix access and residuals agree with the stored rows",
  "Reading or writing an entry that is stored in a matrix accesses exactly the value of that row and column, and an absent entry is reported as an error, never silently redirected to another entry. Matrix-vector residuals sum every stored entry of each row exactly once, and converting or copying a matrix or system preserves all rows, columns, values and right-hand sides.",
  ["inputs", "configurations"], "all matrices in compressed-row form, all rows and columns, all vectors",
  "Tests use one 3x3 dense and one 3x3 sparse matrix.",
  ["include/NeoFOAM/linearAlgebra/CSRMatrix.hpp", "include/NeoFOAM/linearAlgebra/linearSystem.hpp"],
  [("CSRMatrixView::entry, convert, spmv, copyToExecutor", "include/NeoFOAM/linearAlgebra")])

p("C21", "Operator expressions scale and add linearly",
  "Coefficients multiply exactly and pointwise, scaling an expression scales each of its terms, adding or subtracting expressions collects every term of both sides once with the right sign, and explicit evaluation adds the contribution of every explicit term exactly once. Operands are unchanged.",
  ["inputs", "programs"], "all expressions, scalars and coefficient fields",
  "Tests build expressions of two or three fixed terms.",
  ["include/NeoFOAM/dsl/coeff.hpp", "src/dsl/coeff.cpp", "include/NeoFOAM/dsl/expression.hpp", "include/NeoFOAM/dsl/operator.hpp", "include/NeoFOAM/dsl/spatialOperator.hpp"],
  [("Coeff, Expression operators and evaluation", "include/NeoFOAM/dsl")])

p("C22", "Vector arithmetic is exact per component",
  "Adding, subtracting, scaling, comparing and indexing three-component vectors acts on each component exactly as the scalar operation, the inner product is the sum of component products, the magnitude is the square root of the inner product with itself, and compound assignments equal the corresponding binary operations.",
  ["inputs"], "all component values",
  "The test uses a single pair of vectors.",
  ["include/NeoFOAM/core/primitives/vector.hpp", "include/NeoFOAM/core/primitives/scalar.hpp"],
  [("Vector operators, mag, operator&", "include/NeoFOAM/core/primitives/vector.hpp")])

p("C23", "The uniform 1D mesh is geometrically consistent",
  "For every number of cells, the generated mesh has cells of equal volume adding up to the domain, internal faces between consecutive cells with owner and neighbour in order, two boundary patches of one face each attached to the first and last cell, and face and cell centres in the matching order, with all boundary data consistent with the internal geometry.",
  ["inputs"], "all cell counts of at least one",
  "The test looks at a four-cell mesh.",
  ["src/mesh/unstructured/unstructuredMesh.cpp", "src/mesh/unstructured/boundaryMesh.cpp"],
  [("create1DUniformMesh", "src/mesh/unstructured/unstructuredMesh.cpp")])

p("C24", "Registered fields keep their own old-time history",
  "Requesting the old-time level of a registered field the first time creates a level initialised from the field's present values, and later requests return that same level; distinct fields never share a level, and an old level can have its own old level. The bookkeeping documents name exactly the current and previous fields and their level.",
  ["inputs", "histories"], "all fields, all sequences of old-time requests",
  "Tests create two levels of one field.",
  ["include/NeoFOAM/core/database/oldTimeCollection.hpp", "src/core/database/oldTimeCollection.cpp", "include/NeoFOAM/core/database/fieldCollection.hpp"],
  [("OldTimeCollection::getOrInsert/findPreviousTime/findNextTime, oldTime", "src/core/database/oldTimeCollection.cpp")])

p("C25", "One explicit Euler step advances by minus the time step times the sources",
  "A forward Euler step sets every cell to its old-time value minus the time step times the sum of all explicit contributions evaluated at the start of the step, then updates the boundary conditions and stores the new values as the old-time values. No other field changes.",
  ["inputs", "histories"], "all fields, operators and step sizes, all step sequences",
  "One test integrates a constant field for a single step.",
  ["include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/dsl/expression.hpp"],
  [("ForwardEuler::solve", "include/NeoFOAM/timeIntegration/forwardEuler.hpp")])

p("C26", "Parallel kernels are free of data races",
  "In every loop the library runs in parallel, two different iterations never touch the same memory location unless both only read it or both update it atomically. The results are therefore the same for every interleaving of iterations.",
  ["schedules", "inputs"], "all interleavings of iterations, all meshes and field sizes",
  "Serial test runs never interleave iterations, and races need several boundary faces on one cell or several faces per cell.",
  ["src/finiteVolume/cellCentred", "include/NeoFOAM/fields", "include/NeoFOAM/core/parallelAlgorithms.hpp"],
  [("every parallelFor kernel under contract", "src/finiteVolume/cellCentred, include/NeoFOAM/fields")])

p("C27", "Halo exchange buffers give every rank a private, correctly sized slot",
  "After setting up communication, the send or receive slot of every rank holds exactly the requested number of elements of the requested type, slots of different ranks never overlap, and together they use exactly the announced total. Writing to one rank's slot never changes another's, and a buffer cannot be re-initialised or resized while a communication is under way.",
  ["inputs", "histories"], "all rank counts, all per-rank sizes, all element types",
  "The tests run on one to three ranks with equal sizes.",
  ["include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp"],
  [("updateDataSize, get, setCommRankSize, initComm", "include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp")])

p("C28", "High-order time integrators advance with their stated order of accuracy",
  "For every smooth right-hand side, integrating with the Runge-Kutta time integrators converges with the order of the chosen method and leaves the old-time and solution fields consistent after every step.",
  ["inputs", "histories"], "all right-hand sides, step sizes and integrator choices",
  "One test integrates a single decay equation.",
  ["include/NeoFOAM/timeIntegration/rungeKutta.hpp", "src/timeIntegration/rungeKutta.cpp", "include/NeoFOAM/timeIntegration/sundials.hpp"],
  [("RungeKutta::solve through SUNDIALS", "src/timeIntegration/rungeKutta.cpp")])

p("C29", "Linear solves return a solution within the requested tolerance",
  "For every non-singular assembled system, a completed linear solve returns a field whose residual meets the configured tolerance, and a failure to converge is reported.",
  ["inputs", "configurations"], "all systems, preconditioners and solver settings",
  "Tests solve one small system per back end and need the external packages.",
  ["include/NeoFOAM/linearAlgebra/solver.hpp", "src/linearAlgebra/ginkgo.cpp", "include/NeoFOAM/linearAlgebra/petsc.hpp"],
  [("Solver factory and external back ends", "include/NeoFOAM/linearAlgebra")])

p("C30", "Halo exchange delivers every message to its destination and terminates",
  "When all ranks take part in a halo exchange, every rank's send data arrives unchanged in the matching receive slots of its neighbours, and waiting for completion terminates on every rank.",
  ["schedules", "inputs", "fault_sequences"], "all rank counts and interleavings of the MPI processes",
  "Tests run one exchange on at most three ranks.",
  ["include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp", "include/NeoFOAM/mesh/unstructured/communicator.hpp", "include/NeoFOAM/core/mpi/operators.hpp"],
  [("startComm/waitComplete/finaliseComm over MPI", "include/NeoFOAM/core/mpi")])

p("C31", "Geometry coefficients come from the mesh geometry, face by face",
  "For every mesh, the interpolation weight of an internal face is the neighbour cell's share of the two distances from the face to the cell centres projected on the face normal (one half if both vanish), so it lies between zero and one and interpolates functions linear along the normal exactly; boundary weights are one. The delta coefficient of a face is one over the distance between its two cell centres (cell centre and face centre on the boundary), the non-orthogonal one is one over that distance projected on the unit normal, at least a twentieth of the distance. A new or updated geometry scheme holds all three and leaves the mesh unchanged.",
  ["inputs", "configurations"], "all meshes, all executors",
  "Interpolation, gradient and Laplacian rest on these coefficients; tests use uniform one-dimensional meshes, where the weights are one half whichever cell they refer to.",
  ["src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp", "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"],
  [("BasicGeometryScheme::updateWeights/updateDeltaCoeffs/updateNonOrthDeltaCoeffs", "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp"), ("GeometryScheme::update", "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
